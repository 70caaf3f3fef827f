"""Abstract interpreter over LLVM IR with trace partitioning and loop-invariant inference.

Nothing here runs the analysed program: every input is an atom ranging over a set, every
loop over an input string is summarised by an inferred inductive invariant (a *node*), and
the result of an analysis is a finite graph of guarded steps between nodes (a symbolic
transducer) plus a list of events (possible out-of-bounds reads, null dereferences, ...).
"""
import heapq
from math import gcd
import irparse
from irparse import BIN, CAST
from dom import *
from dom import A
from state import *
import state as S

MAXSTATES = 60000


class Event:
    def __init__(self, kind, what, loc, st, fn, approx):
        self.kind, self.what, self.loc, self.fn, self.approx = kind, what, loc, fn, approx
        self.seg = self.src = st.seg
        self.box = dict(st.box)
        self.inp = st.inp
        self.conds = st.conds
        self.rel = dict(st.rel)
        self.pend = st.pend
        self.last = st.last
        self.extra = None

    def __repr__(self):
        return "%s at %s in %s: %s" % (self.kind, self.loc, self.fn, self.what)


class Edge:
    __slots__ = ('src', 'dst', 'box', 'cells', 'conds', 'emit', 'delta', 'assign', 'approx', 'writes', 'pend', 'rel', 'lens', 'last')


class Term:
    __slots__ = ('src', 'box', 'cells', 'conds', 'ret', 'strs', 'approx', 'pend', 'st', 'rel', 'lens', 'loc', 'last')


class Node:
    def __init__(self, nid, loop, sig):
        self.id = nid
        self.loop = loop
        self.syms = {}       # group -> atom
        self.state_atoms = set()
        self.loc = None
        self.cursor = {}     # region -> expr of the region's cursor symbol part
        self.desc = sig


class Analysis:
    """result of analysing one entry point"""
    def __init__(self):
        self.edges = []
        self.terms = []
        self.events = []
        self.nodes = {}
        self.stats = dict(blocks=0, instrs=0, calls=0, states=0, loops=0, unrolled=0)
        self.fns = set()
        self.loads = 0
        self.input_reads = 0

    def mark(self):
        return len(self.edges), len(self.terms), len(self.events)

    def rollback(self, m):
        del self.edges[m[0]:]
        del self.terms[m[1]:]
        del self.events[m[2]:]


class Interp:
    def __init__(self, mod, opaque=None, models=None):
        self.m = mod
        self.opaque = opaque or {}
        self.regions = {}
        self.fresh = 0
        self.an = Analysis()
        self.depth = 0
        self.stack = []
        self.cur = None
        self.nodecount = 0
        from models import Models
        self.models = Models(self)
        self.limit_nodes = 40
        self.init_phase = False
        self.bounded = False
        self.args = set()         # string objects that are inputs
        self.cow = False          # strings are buffers of their own, written in place
        self.alloc_stack = []
        self.deadline = None

    # ------------------------------------------------------------ regions
    def new_region(self, kind, name, **kw):
        self.fresh += 1
        rid = (kind, name, self.fresh)
        self.regions[rid] = dict(kind=kind, name=name, **kw)
        return rid

    def fixed_region(self, kind, name, **kw):
        rid = (kind, name, 0)
        if rid not in self.regions:
            self.regions[rid] = dict(kind=kind, name=name, **kw)
        return rid

    def input_region(self, st, name, esz, mode, length=None):
        """mode: nul | len | str"""
        rid = self.fixed_region('in', name, esz=esz, mode=mode)
        st.inp = dict(st.inp)
        d = {'front': ZERO}
        if length is not None:
            d['len'] = length
        st.inp[rid] = d
        return rid

    def loc(self, I):
        r = self.m.loc(I.dbg) if I is not None and I.dbg else None
        return r

    def event(self, kind, what, st, I=None):
        I = I or self.cur
        loc = self.loc(I)
        # attribute to the innermost frame that lies outside libstdc++
        self.an.events.append(Event(kind, what, loc, st, self.stack[-1].dem if self.stack else '?', st.approx))

    # ------------------------------------------------------------ operands
    def val(self, st, v, ty):
        k = v[0]
        if k == 'l':
            return st.env[v[1]]
        if k == 'k':
            w = ty[1] if ty[0] == 'i' else 64
            return ('i', w, (v[1] % (1 << w), ()))
        if k == 'g':
            return self.gval(v[1])
        if k == 'n':
            return NULL
        if k == 'u':
            return UNDEF
        if k == 'z':
            t = self.m.resolve(ty)
            if t[0] == 'i':
                return ('i', t[1], ZERO)
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'st':
                return ('agg', tuple(self.val(st, ('z', e), e) for e in t[1]))
            return UNDEF
        if k == 'ce':
            if v[1] == 'gep':
                r = self.gep(st, v[2], self.val(st, v[3], irparse.PTR), v[4])
                return r[0][1]
            if v[1] in ('bitcast', 'addrspacecast', 'inttoptr'):
                return self.val(st, v[3], v[2])
            if v[1] == 'ptrtoint':
                return self.val(st, v[3], v[2])
            return TOP
        if k == 'agg':
            return ('agg', tuple(self.val(st, x, t) for t, x in v[2]))
        return TOP

    def gval(self, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs or name in self.m.decls:
            return ('fn', name)
        rid = self.fixed_region('g', name)
        return ('p', rid, ZERO)

    # ------------------------------------------------------------ gep
    def gep(self, st, bty, base, idx):
        if base[0] in ('top', 'undef'):
            return [(st, TOP)]
        if base[0] == 'fn':
            return [(st, TOP)]
        if base[0] == 'i':
            return [(st, TOP)]
        cur = [(st, base[2])]
        ty = bty
        first = True
        for ity, iv in idx:
            nxt = []
            step = None
            if first:
                sz = self.m.size(ty)
                nty = ty
                first = False
            else:
                rt = self.m.resolve(ty)
                if rt[0] == 'st':
                    off, nty = self.m.field_off(ty, iv[1])
                    cur = [(s, addc(e, off)) for s, e in cur]
                    ty = nty
                    continue
                nty = rt[2]
                sz = self.m.size(nty)
            for s, e in cur:
                x = self.val(s, iv, ity)
                if x[0] != 'i':
                    return [(st, TOP)]
                for s2, xs in to_s(s, x[1], x[2]):
                    nxt.append((s2, add(e, scale(xs, sz))))
            cur = nxt
            ty = nty
        return [(s, ('p', base[1], e)) for s, e in cur]

    # ------------------------------------------------------------ memory
    def const_bytes(self, ty, init, off, size):
        """read a constant of `size` bytes at byte offset off of a global initialiser -> value or None"""
        m = self.m
        t = m.resolve(ty)
        if init is None:
            return None
        k = init[0]
        if k == 'z':
            return ('zero',)
        if k == 'str':
            if size in (1, 2, 4, 8) and 0 <= off and off + size <= len(init[1]):
                return ('int', int.from_bytes(init[1][off:off + size], 'little'))
            return None
        if t[0] == 'i':
            w = m.size(t)
            if k == 'k':
                v = init[1] % (1 << (8 * w))
                if off == 0 and size == w:
                    return ('int', v)
                if off + size <= w:
                    return ('int', (v >> (8 * off)) & ((1 << (8 * size)) - 1))
                return None
            if off == 0 and size == w and k == 'ce':
                return ('op', init, t)
            return None
        if t[0] == 'ptr':
            if off == 0 and size == 8:
                return ('op', init, t)
            return None
        if t[0] == 'arr':
            es = m.size(t[2])
            if es == 0:
                return None
            i = off // es
            if k == 'agg' and 0 <= i < len(init[2]):
                if off % es + size <= es:
                    return self.const_bytes(t[2], init[2][i][1], off - i * es, size)
                # spans elements
                v = 0
                for b in range(size):
                    r = self.const_bytes(ty, init, off + b, 1)
                    if not r or r[0] not in ('int', 'zero'):
                        return None
                    v |= (r[1] if r[0] == 'int' else 0) << (8 * b)
                return ('int', v)
            return None
        if t[0] == 'st':
            for i in range(len(t[1])):
                o, et = m.field_off(t, i)
                s = m.size(et)
                if o <= off and off + size <= o + s:
                    return self.const_bytes(et, init[2][i][1], off - o, size)
            return None
        return None

    def load(self, st, p, ty, I=None):
        """-> list of (st, val)"""
        self.an.loads += 1
        if p[0] in ('top', 'undef'):
            s2 = st.copy()
            s2.approx = True
            return [(s2, TOP)]
        if p[0] == 'i':
            if is_const(p[2]):
                self.event('null-deref', 'read through null pointer', st, I)
                return []
            return [(st, TOP)]
        if p[0] == 'fn':
            return [(st, TOP)]
        rid = p[1]
        if rid is None:
            self.event('null-deref', 'read through a null pointer', st, I)
            return []
        rt = self.m.resolve(ty)
        if rt[0] in ('st', 'arr'):
            return [(st, TOP)]
        size = self.m.size(rt)
        kind = rid[0]
        if kind == 'in':
            return self.read_input(st, rid, p[2], size, rt, I)
        info = self.regions[rid]
        if not is_const(p[2]):
            return self.load_sym(st, rid, p[2], size, rt, I)
        off = p[2][0]
        return self.load_const(st, rid, off, size, rt, I)

    def conv_loaded(self, st, v, rt):
        """reinterpret loaded value v as type rt"""
        if v[0] == 'i' and rt[0] == 'i':
            if v[1] == rt[1]:
                return [(st, v)]
            if rt[1] == 1:
                return [(s, ('i', 1, e)) for s, e in extract_u(st, v, 0, 1)]
            if rt[1] < v[1]:
                return [(s, ('i', rt[1], e)) for s, e in extract_u(st, v, 0, rt[1])]
            return [(s, ('i', rt[1], e)) for s, e in to_u(st, v[1], v[2])]
        if rt[0] == 'ptr' and v[0] == 'i' and v[2] == ZERO:
            return [(st, NULL)]
        return [(st, v)]

    def load_const(self, st, rid, off, size, rt, I):
        d = st.mem.get(rid)
        if d:
            x = d.get(off)
            if x and x[0] == size:
                return self.conv_loaded(st, x[1], rt)
            if x and x[0] > size and x[1][0] == 'i':
                return [(s, ('i', 8 * size, e)) for s, e in extract_u(st, x[1], 0, 8 * size)]
            # composite or partial
            cover = [(o, sz, v) for o, (sz, v) in d.items() if o < off + size and off < o + sz]
            if cover:
                cover.sort()
                if len(cover) == 1 and cover[0][2][0] == 'i' and cover[0][0] <= off and off + size <= cover[0][0] + cover[0][1]:
                    o, sz, v = cover[0]
                    return [(s, ('i', 8 * size, e)) for s, e in extract_u(st, v, 8 * (off - o), 8 * size)]
                pos = off
                cur = [(st, ZERO)]
                ok = True
                for o, sz, v in cover:
                    if o != pos or v[0] != 'i' or o + sz > off + size:
                        ok = False
                        break
                    nxt = []
                    for s, acc in cur:
                        for s2, u in to_u(s, v[1], v[2]):
                            nxt.append((s2, add(acc, scale(u, 1 << (8 * (o - off))))))
                    cur = nxt
                    pos = o + sz
                if ok and pos == off + size:
                    return [(s, ('i', 8 * size, e)) for s, e in cur]
                if len(cover) == 1 and cover[0][2][0] in ('str', 'seq'):
                    raise Imprecise("raw access into a modelled object")
                return [(st, TOP)]
        if rid[0] == 'g':
            g = self.m.globals.get(rid[1])
            if g is None:
                return [(st, TOP)]
            tot = self.m.size(g['ty'])
            if off < 0 or off + size > tot:
                self.event('oob', 'read at byte offset %d of %s (size %d)' % (off, self.m.dem.get(rid[1], rid[1]), tot), st, I)
                return []
            r = self.const_bytes(g['ty'], g['init'], off, size)
            if r is None:
                return [(st, TOP)]
            if r[0] == 'zero':
                return [(st, ('i', 8 * size, ZERO))] if rt[0] == 'i' and rt[1] > 1 else \
                       [(st, ('i', 1, ZERO) if rt[0] == 'i' else NULL)]
            if r[0] == 'int':
                if rt[0] == 'ptr':
                    return [(st, NULL if r[1] == 0 else TOP)]
                return self.conv_loaded(st, ('i', 8 * size, const(r[1])), rt)
            return [(st, self.val(st, r[1], r[2]))]
        info = self.regions[rid]
        tot = info.get('size')
        if tot is not None and (off < 0 or off + size > tot):
            self.event('oob', 'read at byte offset %d of %s (size %s)' % (off, info['name'], tot), st, I)
            return []
        if info.get('zero'):
            return [(st, ('i', 8 * size, ZERO) if rt[0] == 'i' else NULL)]
        return [(st, UNDEF)]

    def load_sym(self, st, rid, off, size, rt, I):
        """symbolic offset into a table"""
        lo, hi = rng(st, off)
        info = self.regions[rid]
        if rid[0] == 'g':
            g = self.m.globals.get(rid[1])
            if g is None:
                return [(st, TOP)]
            tot = self.m.size(g['ty'])
        else:
            tot = info.get('size')
            if tot is None:
                return [(st, TOP)]
        out = []
        if lo < 0:
            ge, lt = split_ge0(st, off)
            for s in lt:
                self.event('oob', 'read before the start of %s' % self.rname(rid), s, I)
        else:
            ge = [st]
        good = []
        for s in ge:
            a, b = split_ge0(s, sub(const(tot - size), off))
            for x in b:
                self.event('oob', 'read past the end of %s (%d bytes)' % (self.rname(rid), tot), x, I)
            good += a
        for s in good:
            if len(off[1]) == 1:
                sl, k = off[1][0]
                # group index values by table value
                groups = {}
                dom = slice_set(s, sl)
                if card(dom) > 70000:
                    raise Imprecise("table index range")
                for l, h in dom:
                    for v in range(l, h + 1):
                        for s2, x in self.load_const(s, rid, off[0] + k * v, size, rt, I):
                            groups.setdefault(x, []).append((v, v))
                for x, vs in groups.items():
                    s2 = refine_slice(s, sl, norm(vs))
                    if s2:
                        out.append((s2, x))
            else:
                for s2, v in values_of(s, off, 20000):
                    out += self.load_const(s2, rid, v, size, rt, I)
        return out

    def rname(self, rid):
        if rid is None:
            return 'null'
        if rid[0] == 'g':
            return self.m.dem.get(rid[1], rid[1])
        return str(self.regions[rid]['name'])

    def store(self, st, p, size, v, I=None):
        """-> state or None"""
        if p[0] in ('top', 'undef', 'fn', 'i'):
            raise Imprecise("store through unknown pointer")
        rid = p[1]
        if rid is None:
            self.event('null-deref', 'write through a null pointer', st, I)
            return None
        if rid[0] == 'in':
            return self.write_input(st, rid, p[2], size, v, I)
        if not is_const(p[2]):
            raise Imprecise("store at a symbolic offset")
        off = p[2][0]
        if rid[0] == 'g':
            g = self.m.globals.get(rid[1])
            if g is not None and not self.init_phase and not rid[1].startswith('@_ZGV'):
                gv = ('g', '@_ZGV' + rid[1][3:], 0) if rid[1].startswith('@_Z') else None
                gd = st.mem.get(gv) if gv else None
                if not (gd and gd.get(-1) and gd[-1][1][2] == ONE):
                    self.event('global-write', 'write to %s' % self.rname(rid), st, I)
        info = self.regions[rid]
        tot = info.get('size')
        if tot is not None and (off < 0 or off + size > tot):
            self.event('oob', 'write at byte offset %d of %s (size %s)' % (off, info['name'], tot), st, I)
            return None
        s2 = st.copy()
        s2.mem = dict(st.mem)
        d = dict(s2.mem.get(rid, ()))
        x = d.get(off)
        if not (x and x[0] == size):
            for o in [o for o, (sz, vv) in d.items() if o < off + size and off < o + sz]:
                sz, vv = d.pop(o)
                if vv[0] == 'i' and is_const(vv[2]):
                    u = vv[2][0] % (1 << (8 * sz))
                    for b in range(sz):
                        if not off <= o + b < off + size:
                            d[o + b] = (1, ('i', 8, const((u >> (8 * b)) & 255)))
        d[off] = (size, v)
        s2.mem[rid] = d
        ow = info.get('owner')
        if ow is not None:
            od = s2.mem.get(ow[0])
            x = od.get(ow[1]) if od else None
            esz = info['esz']
            if x and x[1][0] == 'str' and off % esz == 0 and size == esz and off // esz < len(x[1][2]) \
                    and all(q[0] == 'u' for q in x[1][2]) and v[0] == 'i':
                pc = list(x[1][2])
                r = to_u(s2, v[1], v[2])
                if len(r) != 1:
                    raise Imprecise("store of an unreduced unit")
                pc[off // esz] = ('u', r[0][1])
                od = dict(od)
                od[ow[1]] = (x[0], ('str', esz, tuple(pc)))
                s2.mem[ow[0]] = od
            elif x and x[1][0] == 'str':
                raise InPlace("store into a string buffer")
        return s2

    def drop_region(self, st, rids):
        st.mem = {r: d for r, d in st.mem.items() if r not in rids}

    # ------------------------------------------------------------ input buffers
    def cell_atom(self, st, rid, idx):
        """atom of input cell idx (Expr in units); creates it if needed -> (st, atom)"""
        info = self.regions[rid]
        d = st.inp[rid]
        if 'view' in info:
            return self.cell_atom(st, info['view'], add(idx, d['start']))
        key = ('c', idx)
        a = d.get(key)
        if a is None:
            a = info.setdefault('atoms', {}).get(idx)
            if a is None:
                a = A.new(8 * info['esz'], '%s{%s}' % (info['name'], show_expr(idx)), 'cell', info.get('alpha'), (rid, idx))
                info['atoms'][idx] = a
            st = st.copy()
            st.inp = dict(st.inp)
            d = dict(d)
            d[key] = a
            st.inp[rid] = d
        return st, a

    def read_input(self, st, rid, off, size, rt, I):
        info = self.regions[rid]
        esz = info['esz']
        if size != esz:
            raise Imprecise("access of %d bytes in a buffer of %d-byte units" % (size, esz))
        if off[0] % esz or any(k % esz for _, k in off[1]):
            raise Imprecise("misaligned access")
        idx = (off[0] // esz, tuple((s, k // esz) for s, k in off[1]))
        self.an.input_reads += 1
        out = []
        # indices that depend on cell data: enumerate
        cellterms = [t for t in idx[1] if A.kind[t[0][0]] == 'cell']
        if cellterms:
            res = []
            e = (0, tuple(cellterms))
            for s, v in values_of(st, e, 512):
                i2 = addc(sub(idx, e), v)
                res += self.read_input(s, rid, scale(i2, esz), size, rt, I)
            return res
        lo, hi = rng(st, idx)
        states = [st]
        if lo < 0:
            ge, lt = split_ge0(st, idx)
            for s in lt:
                self.event('oob', 'read before the start of %s' % info['name'], s, I)
            states = ge
        mode = info['mode']
        for s in states:
            if mode == 'nul':
                front = s.inp[rid]['front']
                d = sub(idx, front)
                if not is_const(d):
                    known = s.inp[rid].get(('c', idx))
                    if known is not None:
                        out.append((s, ('i', 8 * esz, atom_expr(known))))
                        continue
                    # behind the frontier is fine
                    ge, lt = split_ge0(s, addc(d, -1))
                    for x in ge:
                        self.event('oob', 'read of %s at an index not known to be within its terminator' % info['name'], x, I)
                        self.an.events[-1].approx = True
                    for x in lt:
                        x, a = self.cell_atom(x, rid, idx)
                        out.append((x, ('i', 8 * esz, atom_expr(a))))
                    continue
                k = d[0]
                dead = False
                for j in range(max(0, k)):
                    ci = addc(front, j)
                    s, a = self.cell_atom(s, rid, ci)
                    dm = dom_of(s, a)
                    if contains(dm, 0):
                        z = refine_slice(s, (a, 0, A.width[a]), ((0, 0),))
                        z, _ = self.cell_atom(z, rid, idx)
                        self.event('oob', 'read of %s beyond its terminating NUL' % info['name'], z, I)
                        s = refine_slice(s, (a, 0, A.width[a]), diff(dm, ((0, 0),)))
                        if s is None:
                            dead = True
                            break
                if dead:
                    continue
                s, a = self.cell_atom(s, rid, idx)
                out.append((s, ('i', 8 * esz, atom_expr(a))))
            else:
                ln = s.inp[rid]['len']
                slack = 1 if mode == 'len' else 0
                ge, lt = split_ge0(s, addc(sub(ln, idx), -slack))
                for x in lt:
                    self.event('oob', 'read of %s beyond its length' % info['name'], x, I)
                for x in ge:
                    if mode == 'str':
                        gt, eq = split_ge0(x, addc(sub(ln, idx), -1))
                        for y in eq:
                            out.append((y, ('i', 8 * esz, ZERO)))
                    else:
                        gt = [x]
                    for y in gt:
                        if 'sb' in info:
                            y, e = self.models.sb_read(y, info['sb'], idx)
                            out.append((y, ('i', 8 * esz, e)))
                            continue
                        y, a = self.cell_atom(y, rid, idx)
                        out.append((y, ('i', 8 * esz, atom_expr(a))))
        return out

    def write_input(self, st, rid, off, size, v, I):
        info = self.regions[rid]
        if 'sb' in info:
            esz = info['esz']
            if size != esz or off[0] % esz or any(k % esz for _, k in off[1]):
                raise Imprecise("write across the units of a string")
            idx = (off[0] // esz, tuple((s, k // esz) for s, k in off[1]))
            ge, lt = split_ge0(st, addc(sub(st.inp[rid]['len'], idx), -1))
            if lt or len(ge) != 1 or rng(ge[0], idx)[0] < 0:
                raise Imprecise("write at an index not known to be within a string")
            return self.models.sb_write(ge[0], info['sb'], idx, v)
        if not self.cow:
            raise InPlace("write to an input buffer")
        if 'pieces' in info or 'view' in info:
            raise Imprecise("write into a string that is not followed")
        self.event('input-write', 'write to input %s' % info['name'], st, I)
        s = st.copy()
        s.approx = True
        return s

    # ------------------------------------------------------------ execution
    def call_function(self, st, name, args, I=None):
        """-> list of (state, ret)"""
        name = self.m.aliases.get(name, name)
        dem = self.m.dem.get(name, name)
        r = self.models.call(st, name, dem, args, I)
        if r is not None:
            return r
        f = self.m.funcs.get(name)
        if f is None:
            raise Imprecise("call to unknown external function %s" % dem)
        return self.exec(f, args, st)

    def exec(self, f, args, st):
        f.parse()
        self.an.stats['calls'] += 1
        self.an.fns.add(f.dem)
        if len(self.stack) > 80:
            self.event('recursion', 'unbounded recursion through %s' % f.dem, st)
            return []
        self.stack.append(f)
        saved = st.env
        s = st.copy()
        s.outer = st.outer + ((f.name, saved),)
        s.env = {nm: v for (ty, nm, _), v in zip(f.params, args)}
        allocs = set()
        self.alloc_stack.append(allocs)
        try:
            arr, exits, rets = self.run(f, [(f.entry, s)], None, None)
        finally:
            self.stack.pop()
            self.alloc_stack.pop()
        out = []
        groups = {}
        for s, v in rets:
            if allocs:
                self.drop_region(s, allocs)
            s.env = saved
            s.outer = st.outer
            groups.setdefault((v, s.key(())), []).append((s, v))
        for k, lst in groups.items():
            v = lst[0][1]
            for s in merge_boxes([x for x, _ in lst]):
                out.append((s, v))
        return out

    def run(self, f, items, allowed, stop):
        """explore blocks of f from items; -> (arrivals at stop, exits leaving allowed, returns)"""
        pend = {}
        heap = []
        rpo = f.rpo
        for b, s in items:
            if b not in pend:
                pend[b] = []
                heapq.heappush(heap, (rpo[b], b))
            pend[b].append(s)
        arrivals, exits, rets = [], [], []
        start_stop = stop
        total = 0
        while heap:
            _, b = heapq.heappop(heap)
            states = pend.pop(b)
            if len(states) > 1:
                states = merge_states(states, f.live[b])
            if b in f.loops and not (b == stop and start_stop is not None):
                ex, rt = self.loop(f, b, states)
                rets += rt
                outs = ex
            else:
                if b == stop:
                    start_stop = None    # only the first visit starts at the header
                outs = []
                self.an.stats['blocks'] += 1
                for s in states:
                    self.block(f, b, s, outs, rets)
                if b == stop:
                    start_stop = stop
            for succ, s in outs:
                if succ == stop:
                    arrivals.append(s)
                elif allowed is not None and succ not in allowed:
                    exits.append((succ, s))
                else:
                    q = pend.get(succ)
                    if q is None:
                        q = pend[succ] = []
                        heapq.heappush(heap, (rpo[succ], succ))
                    q.append(s)
            total += len(outs)
            if total > MAXSTATES:
                raise Imprecise("state explosion in %s" % f.dem)
            if self.deadline is not None:
                import time
                if time.time() > self.deadline:
                    raise Imprecise("time budget exhausted")
        return arrivals, exits, rets

    def edge(self, f, b, succ, s, outs):
        """apply phis of succ for edge b->succ and append"""
        phis = f.blocks[succ].phis
        env = s.env
        live = f.live[succ]
        new = {k: v for k, v in env.items() if k in live}
        for ph in phis:
            for v, pb in ph.a:
                if pb == b:
                    new[ph.res] = self.val(s, v, ph.ty)
                    break
        s = s.copy()
        s.env = new
        outs.append((succ, s))

    def block(self, f, b, st, outs, rets):
        instrs = f.blocks[b].instrs
        n = len(instrs)
        todo = [(st, 0)]
        stats = self.an.stats
        while todo:
            s, i = todo.pop()
            stats['states'] += 1
            while True:
                I = instrs[i]
                self.cur = I
                stats['instrs'] += 1
                op = I.op
                if op == 'br':
                    if I.a is None:
                        self.edge(f, b, I.b, s, outs)
                    else:
                        c = self.val(s, I.a, irparse.I1)
                        own = 'ansak::' in f.dem
                        for s2, v in self.decide(s, c):
                            if own:
                                if s2 is s:
                                    s2 = s.copy()
                                s2.last = (I.dbg, f.dem)
                            self.edge(f, b, I.b if v else I.c, s2, outs)
                    break
                if op == 'switch':
                    if 'ansak::' in f.dem:
                        s = s.copy()
                        s.last = (I.dbg, f.dem)
                    self.switch(f, b, I, s, outs)
                    break
                if op == 'ret':
                    rets.append((s, None if I.a is None else self.val(s, I.a, I.ty)))
                    break
                if op == 'unreachable' or op == 'resume':
                    break
                res = self.step(f, I, s)
                if op == 'invoke':
                    for s2 in res:
                        self.edge(f, b, I.c, s2, outs)
                    break
                i += 1
                if len(res) == 1:
                    s = res[0]
                    continue
                for s2 in res:
                    todo.append((s2, i))
                break

    def decide(self, st, c):
        if c[0] == 'i':
            if is_const(c[2]):
                return [(st, c[2][0] & 1)]
            out = []
            for s, e in to_u(st, 1, c[2]):
                out += values_of(s, e, 4)
            return out
        if c[0] == 'undef':
            raise Imprecise("branch on an undefined value")
        a, b = st.copy(), st.copy()
        a.approx = b.approx = True
        return [(a, 1), (b, 0)]

    def switch(self, f, b, I, st, outs):
        v = self.val(st, I.a, I.ty)
        if v[0] != 'i':
            for t in dict.fromkeys([I.b] + [x for _, x in I.c]):
                s = st.copy()
                s.approx = True
                self.edge(f, b, t, s, outs)
            return
        w = v[1]
        groups = {}
        for c, t in I.c:
            groups.setdefault(t, []).append(c % (1 << w))
        for s, e in to_u(st, w, v[2]):
            if len(e[1]) == 1:
                sl, k = e[1][0]
                dom = slice_set(s, sl)
                rest = dom
                for t, cs in groups.items():
                    want = norm([((c - e[0]) // k,) * 2 for c in cs if (c - e[0]) % k == 0])
                    x = inter(dom, want)
                    if x:
                        s2 = refine_slice(s, sl, x)
                        if s2:
                            self.edge(f, b, t, s2, outs)
                        rest = diff(rest, x)
                if rest:
                    s2 = refine_slice(s, sl, rest)
                    if s2:
                        self.edge(f, b, I.b, s2, outs)
            elif is_const(e):
                for c, t in I.c:
                    if c % (1 << w) == e[0]:
                        self.edge(f, b, t, s, outs)
                        break
                else:
                    self.edge(f, b, I.b, s, outs)
            else:
                rem = [s]
                for c, t in I.c:
                    nr = []
                    for x in rem:
                        tr, fa = split_eq0(x, addc(e, -(c % (1 << w))))
                        for y in tr:
                            self.edge(f, b, t, y, outs)
                        nr += fa
                    rem = nr
                for x in rem:
                    self.edge(f, b, I.b, x, outs)

    def setv(self, st, name, v):
        s = st.copy()
        s.env = dict(st.env)
        s.env[name] = v
        return s

    def step(self, f, I, st):
        """execute one non-terminator; -> list of states"""
        op = I.op
        if op in BIN:
            a = self.val(st, I.a, I.ty)
            b = self.val(st, I.b, I.ty)
            w = I.ty[1] if I.ty[0] == 'i' else None
            if a[0] == 'i' and b[0] == 'i':
                return [self.setv(s, I.res, ('i', w, fin(s, w, e))) for s, e in binop(st, op, w, a[2], b[2])]
            if op == 'sub' and a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                return [self.setv(st, I.res, ('i', w, fin(st, w, sub(a[2], b[2]))))]
            if op in ('add', 'sub') and a[0] == 'p' and b[0] == 'i':
                return [self.setv(s, I.res, ('p', a[1], add(a[2], e if op == 'add' else scale(e, -1)))) for s, e in to_s(st, w, b[2])]
            if op == 'and' and (a == ('i', w, ZERO) or b == ('i', w, ZERO)):
                return [self.setv(st, I.res, ('i', w, ZERO))]
            return [self.setv(st, I.res, UNDEF if a[0] == 'undef' or b[0] == 'undef' else TOP)]
        if op == 'icmp':
            a = self.val(st, I.a, I.ty)
            b = self.val(st, I.b, I.ty)
            return self.icmp(st, I, a, b)
        if op in CAST:
            a = self.val(st, I.a, I.b)
            if op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'):
                if op == 'ptrtoint' and a[0] == 'p' and a[1] is None:
                    a = ('i', I.ty[1], a[2])
                elif op == 'inttoptr' and a[0] == 'i' and is_const(a[2]):
                    a = ('p', None, a[2])
                return [self.setv(st, I.res, a)]
            if a[0] != 'i':
                return [self.setv(st, I.res, a if a[0] in ('undef', 'p') else TOP)]
            w, tw = a[1], I.ty[1]
            if op == 'zext':
                return [self.setv(s, I.res, ('i', tw, e)) for s, e in to_u(st, w, a[2])]
            if op == 'sext':
                return [self.setv(s, I.res, ('i', tw, fin(s, tw, e))) for s, e in to_s(st, w, a[2])]
            # trunc: keep the form, reduce lazily but bring small results into range
            e = fin(st, tw, a[2])
            return [self.setv(st, I.res, ('i', tw, e))]
        if op == 'load':
            p = self.val(st, I.a, irparse.PTR)
            return [self.setv(s, I.res, v) for s, v in self.load(st, p, I.ty, I)]
        if op == 'store':
            p = self.val(st, I.b, irparse.PTR)
            v = self.val(st, I.a, I.ty)
            t = self.m.resolve(I.ty)
            if t[0] == 'i' and t[1] == 1 and v[0] == 'i':
                v = ('i', 8, v[2])
            if v[0] == 'agg':
                s = st
                for i, x in enumerate(v[1]):
                    off, et = self.m.field_off(I.ty, i)
                    s = self.store(s, ('p', p[1], addc(p[2], off)), self.m.size(et), x, I)
                    if s is None:
                        return []
                return [s]
            s = self.store(st, p, self.m.size(t), v, I)
            return [s] if s else []
        if op == 'getelementptr':
            base = self.val(st, I.a, irparse.PTR)
            return [self.setv(s, I.res, v) for s, v in self.gep(st, I.ty, base, I.b)]
        if op == 'alloca':
            cnt = self.val(st, I.a, ('i', 64))
            sz = self.m.size(I.ty) * (cnt[2][0] if cnt[0] == 'i' and is_const(cnt[2]) else 1)
            # one region per (call depth, alloca): re-executing re-creates it
            rid = ('a', '%s:%s' % (f.dem.split('(')[0], I.res), len(self.stack))
            self.regions[rid] = dict(kind='a', name='%s in %s' % (I.res, f.dem.split('(')[0]), size=sz)
            self.alloc_stack[-1].add(rid)
            s = st
            if rid in st.mem:
                s = st.copy()
                s.mem = {k: v for k, v in st.mem.items() if k != rid}
            return [self.setv(s, I.res, ('p', rid, ZERO))]
        if op == 'select':
            c = self.val(st, I.a, irparse.I1)
            return [self.setv(s, I.res, self.val(s, I.b if v else I.c, I.ty)) for s, v in self.decide(st, c)]
        if op in ('call', 'invoke'):
            return self.docall(f, I, st)
        if op == 'extractvalue':
            a = self.val(st, I.a, I.ty)
            for i in I.b:
                a = a[1][i] if a[0] == 'agg' else a if a[0] == 'undef' else TOP
            return [self.setv(st, I.res, a)]
        if op == 'insertvalue':
            a = self.val(st, I.a, I.ty)
            v = self.val(st, I.b, I.d)
            t = self.m.resolve(I.ty)
            if len(I.c) != 1 or t[0] != 'st':
                return [self.setv(st, I.res, TOP)]
            el = list(a[1]) if a[0] == 'agg' else [UNDEF] * len(t[1])
            el[I.c[0]] = v
            return [self.setv(st, I.res, ('agg', tuple(el)))]
        if op == 'freeze':
            return [self.setv(st, I.res, self.val(st, I.a, I.ty))]
        if op == 'fence':
            return [st]
        if op == 'landingpad':
            return []
        raise Imprecise("unsupported instruction %s" % op)

    def icmp(self, st, I, a, b):
        pred = I.c
        T1, F1 = ('i', 1, ONE), ('i', 1, ZERO)

        def emit(tr, fa):
            return [self.setv(s, I.res, T1) for s in tr] + [self.setv(s, I.res, F1) for s in fa]
        if a[0] == 'i' and b[0] == 'i':
            tr, fa = cmp(st, pred, a[1], a[2], b[2])
            return emit(tr, fa)
        if a[0] == 'i' and is_const(a[2]) and b[0] in ('p', 'fn'):
            a = ('p', None, a[2])
        if b[0] == 'i' and is_const(b[2]) and a[0] in ('p', 'fn'):
            b = ('p', None, b[2])
        if a[0] == 'fn' or b[0] == 'fn':
            if pred in ('eq', 'ne') and a[0] in ('fn', 'p') and b[0] in ('fn', 'p'):
                eq = a == b
                return emit([st], []) if eq == (pred == 'eq') else emit([], [st])
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                d = sub(a[2], b[2])
                if pred in ('eq', 'ne'):
                    tr, fa = split_eq0(st, d)
                    return emit(tr, fa) if pred == 'eq' else emit(fa, tr)
                op = pred[1:]
                if op == 'ge':
                    tr, fa = split_ge0(st, d)
                elif op == 'gt':
                    tr, fa = split_ge0(st, addc(d, -1))
                elif op == 'le':
                    tr, fa = split_ge0(st, scale(d, -1))
                else:
                    tr, fa = split_ge0(st, addc(scale(d, -1), -1))
                return emit(tr, fa)
            if pred == 'eq':
                return emit([], [st])
            if pred == 'ne':
                return emit([st], [])
            if a[1] is None and is_const(a[2]) and a[2][0] == 0:
                return emit([st], []) if pred in ('ult', 'ule') else emit([], [st])
            if b[1] is None and is_const(b[2]) and b[2][0] == 0:
                return emit([st], []) if pred in ('ugt', 'uge') else emit([], [st])
        x, y = st.copy(), st.copy()
        x.approx = y.approx = True
        return emit([x], [y])

    def docall(self, f, I, st):
        callee = self.val(st, I.a, irparse.PTR)
        if callee[0] != 'fn':
            raise Imprecise("indirect call through an unknown pointer")
        name = callee[1]
        args = [self.val(st, v, ty) for ty, v in I.b]
        if name.startswith('@llvm.'):
            r = self.intrinsic(st, name, args, I)
        else:
            # values not needed after the call need not be carried
            live = self.live_after(f, I)
            s = st
            if len(st.env) > len(live):
                s = st.copy()
                s.env = {k: v for k, v in st.env.items() if k in live}
            r = self.call_function(s, name, args, I)
        self.cur = I
        if I.res:
            return [self.setv(s, I.res, v if v is not None else UNDEF) for s, v in r]
        return [s for s, v in r]

    def live_after(self, f, I):
        la = getattr(f, 'liveafter', None)
        if la is None:
            la = f.liveafter = {}
            for bn in f.rpo:
                b = f.blocks[bn]
                out = set()
                for s in b.succs:
                    out |= (f.live[s] - {ph.res for ph in f.blocks[s].phis})
                    for ph in f.blocks[s].phis:
                        for v, pb in ph.a:
                            if pb == bn:
                                irparse.locals_in(v, out)
                for ins in reversed(b.instrs):
                    if ins.op in ('call', 'invoke'):
                        la[id(ins)] = set(out) - ({ins.res} if ins.res else set())
                    if ins.res:
                        out.discard(ins.res)
                    for v in irparse.operands(ins):
                        irparse.locals_in(v, out)
        return la[id(I)]

    def intrinsic(self, st, name, args, I):
        n = name[6:]
        if n.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'stackrestore', 'donothing', 'prefetch')):
            return [(st, None)]
        if n.startswith('stacksave'):
            return [(st, TOP)]
        if n.startswith(('expect', 'launder', 'strip.invariant', 'ssa.copy')):
            return [(st, args[0])]
        if n.startswith('invariant'):
            return [(st, UNDEF)]
        if n.startswith(('memcpy', 'memmove')):
            return [(s, None) for s in self.memcpy(st, args[0], args[1], args[2], I)]
        if n.startswith('memset'):
            return [(s, None) for s in self.memset(st, args[0], args[1], args[2], I)]
        if n.startswith('trap'):
            self.event('trap', 'trap reached', st, I)
            return []
        if n.startswith(('umax', 'umin', 'smax', 'smin')):
            a, b = args[0], args[1]
            if a[0] != 'i' or b[0] != 'i':
                return [(st, TOP)]
            tr, fa = cmp(st, n[0] + 'ge', a[1], a[2], b[2])
            mx = n[1:4] == 'max'
            return [(s, a if mx else b) for s in tr] + [(s, b if mx else a) for s in fa]
        if n.startswith('ctlz') or n.startswith('cttz') or n.startswith('ctpop'):
            a = args[0]
            if a[0] != 'i':
                return [(st, TOP)]
            out = []
            w = a[1]
            for s, e in to_u(st, w, a[2]):
                if n.startswith('ctlz'):
                    rem = [s]
                    for k in range(w):
                        nr = []
                        for x in rem:
                            ge, lt = split_ge0(x, addc(e, -(1 << (w - 1 - k))))
                            out += [(y, ('i', w, const(k))) for y in ge]
                            nr += lt
                        rem = nr
                    out += [(y, ('i', w, const(w))) for y in rem]
                else:
                    for s2, v in values_of(s, e, 70000):
                        r = bin(v).count('1') if n.startswith('ctpop') else ((v & -v).bit_length() - 1 if v else w)
                        out.append((s2, ('i', w, const(r))))
            return out
        if n.startswith('usub.sat'):
            a, b = args
            tr, fa = cmp(st, 'uge', a[1], a[2], b[2])
            return [(s, ('i', a[1], fin(s, a[1], sub(a[2], b[2])))) for s in tr] + [(s, ('i', a[1], ZERO)) for s in fa]
        if n.startswith('abs'):
            a = args[0]
            out = []
            for s, e in to_s(st, a[1], a[2]):
                ge, lt = split_ge0(s, e)
                out += [(x, ('i', a[1], e)) for x in ge] + [(x, ('i', a[1], scale(e, -1))) for x in lt]
            return out
        if n.startswith('objectsize'):
            return [(st, ('i', 64, const((1 << 64) - 1)))]
        if n.startswith('is.constant'):
            return [(st, ('i', 1, ZERO))]
        raise Imprecise("intrinsic " + name)

    def memcpy(self, st, d, s, n, I):
        if n[0] != 'i' or not is_const(n[2]):
            raise Imprecise("memcpy of symbolic size")
        n = n[2][0]
        if n == 0:
            return [st]
        if d[0] != 'p' or s[0] != 'p' or d[1] is None or s[1] is None:
            raise Imprecise("memcpy through unknown pointer")
        if d[1][0] == 'in':
            raise Imprecise("memcpy into input")
        if not is_const(d[2]) or (not is_const(s[2])):
            raise Imprecise("memcpy at symbolic offset")
        if s[1][0] == 'in':
            esz = self.regions[s[1]]['esz']
            cur = [st]
            for o in range(0, n, esz):
                nxt = []
                for x in cur:
                    for y, v in self.read_input(x, s[1], addc(s[2], o), esz, ('i', 8 * esz), I):
                        z = self.store(y, ('p', d[1], addc(d[2], o)), esz, v, I)
                        if z:
                            nxt.append(z)
                cur = nxt
            return cur
        so, do = s[2][0], d[2][0]
        src = dict(st.mem.get(s[1], ()))
        items = [(o, sz, v) for o, (sz, v) in sorted(src.items()) if o < so + n and so < o + sz]
        cur = st
        if s[1][0] == 'g' and not items:
            # constant initialiser: copy scalar by scalar following the type
            g = self.m.globals.get(s[1][1])
            items = []
            if g is not None:
                for o, sz, t in self.scalars(g['ty']):
                    if so <= o and o + sz <= so + n:
                        r = self.load_const(st, s[1], o, sz, t, I)
                        if r:
                            items.append((o, sz, r[0][1]))
        for o, sz, v in items:
            if o < so or o + sz > so + n:
                raise Imprecise("partial memcpy")
            cur = self.store(cur, ('p', d[1], const(do + o - so)), sz, v, I)
            if cur is None:
                return []
        return [cur]

    def scalars(self, ty, off=0):
        t = self.m.resolve(ty)
        if t[0] == 'arr':
            es = self.m.size(t[2])
            for i in range(t[1]):
                yield from self.scalars(t[2], off + i * es)
        elif t[0] == 'st':
            for i in range(len(t[1])):
                o, et = self.m.field_off(t, i)
                yield from self.scalars(et, off + o)
        else:
            yield off, self.m.size(t), t

    def memset(self, st, d, v, n, I):
        if n[0] != 'i' or not is_const(n[2]) or v[0] != 'i' or not is_const(v[2]):
            raise Imprecise("memset")
        n = n[2][0]
        b = v[2][0]
        cur = st
        if d[1] is not None and d[1][0] != 'in' and is_const(d[2]):
            o = 0
            while o < n:
                sz = 8 if n - o >= 8 else 4 if n - o >= 4 else 2 if n - o >= 2 else 1
                cur = self.store(cur, ('p', d[1], addc(d[2], o)), sz, ('i', 8 * sz, const(int.from_bytes(bytes([b]) * sz, 'little'))), I)
                if cur is None:
                    return []
                o += sz
            return [cur]
        raise Imprecise("memset")

    # ------------------------------------------------------------ loops
    def loop(self, f, h, states):
        exits, rets = [], []
        for st in states:
            if self.bounded:
                self.unroll(f, h, st, exits, rets)
            elif self.counted(f, h, st):
                mk = self.an.mark()
                ex, rt = [], []
                try:
                    self.unroll(f, h, st, ex, rt, 400)
                    exits += ex
                    rets += rt
                except InPlace:
                    raise
                except Imprecise as e:
                    self.an.rollback(mk)
                    if 'time budget' in str(e):
                        raise
                    self.scan(f, h, st, exits, rets)
            else:
                mk = self.an.mark()
                ex, rt = [], []
                try:
                    self.scan(f, h, st, ex, rt)
                except InPlace:
                    raise
                except Imprecise as e:
                    self.an.rollback(mk)
                    if 'time budget' in str(e):
                        raise
                    ex, rt = [], []
                    try:        # no invariant: the loop may still end after a few rounds
                        self.unroll(f, h, st, ex, rt, 150)
                    except InPlace:
                        raise
                    except Imprecise:
                        self.an.rollback(mk)
                        raise e
                exits += ex
                rets += rt
        return exits, rets

    def unroll(self, f, h, st, exits, rets, most=None):
        self.an.stats['unrolled'] += 1
        body = f.loops[h]
        cur = [st]
        for it in range(20000 if most is None else 70):
            if not cur:
                return
            arr, ex, rt = self.run(f, [(h, s) for s in cur], body, h)
            exits += ex
            rets += rt
            cur = merge_states(arr, f.live[h]) if len(arr) > 1 else arr
            if most is not None:
                most -= len(cur)
                if most < 0:
                    break
        raise Imprecise("unrolling limit")

    def concrete(self, st, v, depth=0):
        if v[0] == 'i':
            if is_const(v[2]):
                return True
            lo, hi = rng(st, v[2])
            return hi - lo <= 16
        if v[0] == 'fn':
            return True
        if v[0] == 'p':
            if v[1] is None:
                return True
            if v[1][0] == 'in' or not is_const(v[2]):
                return False
            if v[1][0] == 'a' and depth < 3:
                d = st.mem.get(v[1])
                if d:
                    for o, (sz, x) in d.items():
                        if x[0] in ('str', 'seq'):
                            return False
                        if not self.concrete(st, x, depth + 1):
                            return False
            return True
        return False

    def counted(self, f, h, st):
        """is some exit of the loop controlled only by concrete, loop-variant values?"""
        body = f.loops[h]
        info = getattr(f, 'loopinfo', None)
        if info is None:
            info = f.loopinfo = {}
        li = info.get(h)
        if li is None:
            li = info[h] = self.loop_slices(f, h, body)
        for leaves, variant in li:
            if not variant:
                continue
            ok = True
            var = False
            for kind, x in leaves:
                if kind == 'bad':
                    ok = False
                    break
                if kind == 'v':
                    v = st.env.get(x)
                    if v is None or not self.concrete(st, v):
                        ok = False
                        break
                elif kind == 'm':         # content of the alloca x
                    v = st.env.get(x)
                    if v is None or v[0] != 'p' or not self.concrete(st, v):
                        ok = False
                        break
            if ok:
                return True
        return False

    def loop_slices(self, f, h, body):
        """for every conditional exit: (set of leaves, variant?)"""
        defs = {}
        for b in body:
            for ph in f.blocks[b].phis:
                defs[ph.res] = (b, ph)
            for I in f.blocks[b].instrs:
                if I.res:
                    defs[I.res] = (b, I)
        stored = set()
        for b in body:
            for I in f.blocks[b].instrs:
                if I.op == 'store' and I.b[0] == 'l':
                    stored.add(I.b[1])
                if I.op in ('call', 'invoke'):
                    for ty, v in I.b:
                        if v[0] == 'l' and ty == irparse.PTR:
                            stored.add(v[1])
        out = []
        for b in body:
            t = f.blocks[b].instrs[-1]
            if t.op not in ('br', 'switch') or t.a is None:
                continue
            if not any(s not in body for s in f.blocks[b].succs):
                continue
            # an exit that only leads to 'unreachable' does not count
            leaves = set()
            variant = [False]
            seen = set()

            def walk(v):
                if not v or v[0] != 'l':
                    return
                n = v[1]
                if n in seen:
                    return
                seen.add(n)
                if n not in defs:
                    leaves.add(('v', n))
                    return
                bb, I = defs[n]
                if I.op == 'phi':
                    if bb == h:
                        variant[0] = True
                        leaves.add(('v', n))
                        for x, pb in I.a:
                            if pb in body:
                                walk(x)
                    else:
                        for x, pb in I.a:
                            walk(x)
                        # control dependence of the phi is ignored: conservative enough for unrolling
                    return
                if I.op == 'load':
                    p = I.a
                    if p[0] == 'l' and p[1] not in defs:
                        leaves.add(('m', p[1]))
                        if p[1] in stored:
                            variant[0] = True
                            # what is stored must be concrete as well
                            for b2 in body:
                                for J in f.blocks[b2].instrs:
                                    if J.op == 'store' and J.b == p:
                                        walk(J.a)
                        return
                    if p[0] == 'g':
                        return
                    walk(p)
                    return
                if I.op in ('call', 'invoke'):
                    for ty, x in I.b:
                        walk(x)
                        if x[0] == 'l' and x[1] not in defs and ty == irparse.PTR:
                            leaves.add(('m', x[1]))
                            if x[1] in stored:
                                variant[0] = True
                    return
                for x in irparse.operands(I):
                    walk(x)
            walk(t.a)
            out.append((leaves, variant[0]))
        return out

    # ---- scan loops: invariant inference
    def scan(self, f, h, st, exits, rets):
        self.an.stats['loops'] += 1
        body = f.loops[h]
        plan = LoopPlan(self, f, h, st)
        for attempt in range(40):
            mk = self.an.mark()
            ex, rt = [], []
            try:
                ok = plan.attempt(body, ex, rt)
            except Restart:
                ok = False
            if ok:
                exits += ex
                rets += rt
                return
            self.an.rollback(mk)
        raise Imprecise("no inductive invariant found for the loop at %s in %s" % (self.loopline(f, h), f.dem))

    def loopline(self, f, h):
        for I in f.blocks[h].instrs:
            r = self.loc(I)
            if r:
                return "%s:%d" % r
        return h


    # ------------------------------------------------------------ entry points
    def init_globals(self):
        """abstractly interpret the module's static initialisers -> state"""
        st = empty_state()
        self.init_phase = True
        try:
            for n in self.m.funcs:
                if n.startswith('@_GLOBAL__sub_I_'):
                    r = self.call_function(st, n, [])
                    if len(r) != 1:
                        raise Imprecise("static initialisation is not deterministic")
                    st = r[0][0]
        finally:
            self.init_phase = False
        st.env = {}
        st.outer = ()
        return st

    def analyse(self, name, args, st):
        """analyse one call; every return becomes a Term of self.an"""
        st = st.copy()
        st.env = {}
        f = self.m.funcs[name]
        rets = self.exec(f, args, st)
        for s, v in rets:
            t = Term()
            t.src, t.box, t.conds, t.ret, t.st = s.seg, s.box, s.conds, v, s
            t.approx, t.pend, t.rel, t.cells = s.approx, s.pend, s.rel, s.inp
            t.strs, t.lens, t.loc, t.last = None, None, None, s.last
            self.an.terms.append(t)
        return self.an


class Restart(Exception):
    pass


def extract_u(st, v, l, m):
    out = []
    for s, u in to_u(st, v[1], v[2]):
        out += extract(s, u, l, m)
    return out


def merge_states(states, live):
    groups = {}
    for s in states:
        groups.setdefault(s.key(live), []).append(s)
    out = []
    for g in groups.values():
        out += merge_boxes(g) if len(g) > 1 else g
    return out


def merge_boxes(lst):
    """states equal up to their boxes: unite those that differ in one atom only"""
    if len(lst) == 1:
        return lst
    rep = lst[0]
    boxes = set()
    for s in lst:
        boxes.add(frozenset((a, d) for a, d in s.box.items() if d != A.full[a]))
    changed = True
    while changed and len(boxes) > 1:
        changed = False
        atoms = set()
        for b in boxes:
            for a, _ in b:
                atoms.add(a)
        for a in atoms:
            g = {}
            for b in boxes:
                d = None
                rest = []
                for x, y in b:
                    if x == a:
                        d = y
                    else:
                        rest.append((x, y))
                g.setdefault(frozenset(rest), []).append(d if d is not None else A.full[a])
            if len(g) < len(boxes):
                changed = True
                nb = set()
                for rest, ds in g.items():
                    if len(ds) == 1:
                        u = ds[0]
                    else:
                        pairs = []
                        for d in ds:
                            pairs.extend(d)
                        u = norm(pairs)
                    if u != A.full[a]:
                        nb.add(rest | {(a, u)})
                    else:
                        nb.add(rest)
                boxes = nb
    out = []
    for b in boxes:
        s = rep.copy()
        s.box = dict(b)
        out.append(s)
    return out


from loops import LoopPlan  # noqa: E402
