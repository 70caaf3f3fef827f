"""Models of the C++ runtime and of std::basic_string for the abstract interpreter.

A std::basic_string object is one 32-byte memory cell holding ('str', unit size, pieces).
Pieces:  ('u', e)              one code unit whose value is the linear form e
         ('in', R, start, n)   n units of buffer R from index start
         ('cstr', R, start, a) the units of R from start up to the first zero unit (a: atom, its length)
         ('app', term, a)      the result of an uninterpreted (summarised) call; a: atom, its length
         ('p', sym, a)         everything the string held when a loop node was entered; a: atom, length
"""
import re
from dom import *
from dom import A
from state import *
import irparse

CH = {'char': 1, 'char16_t': 2, 'char32_t': 4, 'wchar_t': 4, 'char8_t': 1, 'signed char': 1, 'unsigned char': 1}
STR = re.compile(r'(?:std::__cxx11::|std::)basic_string<(char16_t|char32_t|wchar_t|char), std::char_traits<\1>, std::allocator<\1>>')
NPOS = (1 << 64) - 1


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def split_sig(dem):
    """-> (qualified name without template-return type, args list) of a demangled function"""
    d = 0
    if not dem.endswith(')') and not dem.endswith('const') and not dem.endswith('&'):
        return dem, None
    i = len(dem) - 1
    # find the '(' matching the last top-level ')'
    end = dem.rfind(')')
    depth = 0
    i = end
    while i >= 0:
        if dem[i] == ')':
            depth += 1
        elif dem[i] == '(':
            depth -= 1
            if depth == 0:
                break
        i -= 1
    return dem[:i], split_args(dem[i + 1:end])


class Models:
    def __init__(self, ip):
        self.ip = ip
        self.cache = {}
        self.terms = {}
        self.wchar = ip.m.wchar
        self.nulfree = set()       # opaque functions whose string result holds no zero unit

    # -------------------------------------------------------------- dispatch
    def resolve(self, name, dem):
        r = self.cache.get(name)
        if r is not None:
            return r
        d = dem.replace('[abi:cxx11]', '')
        r = self._resolve(name, d)
        self.cache[name] = r
        return r

    def _resolve(self, name, dem):
        op = self.ip.opaque.get(dem)
        if op is None:
            op = self.ip.opaque.get(dem.split('(')[0])
        if op is not None:
            return ('opaque', op, dem)
        n = name.lstrip('@').strip('"')
        m = re.match(r'(\w+)$', n)
        simple = getattr(self, 'x_' + n, None) if m else None
        if simple:
            return ('simple', simple)
        if dem.startswith('operator new'):
            return ('simple', self.op_new)
        if dem.startswith('operator delete'):
            return ('simple', self.op_delete)
        if re.match(r'std::__throw_|std::terminate|__cxa_throw|__cxa_rethrow|abort|std::__glibcxx_assert_fail', dem):
            return ('throw', dem)
        if dem.startswith('std::__detail::_List_node_base::'):
            return ('list', dem.split('(')[0].split('::')[-1])
        q, args = split_sig(dem)
        if args is not None:
            mm = STR.search(q)
            if mm:
                C = mm.group(1)
                rest = q[mm.end():]
                r2 = re.match(r'::(~?basic_string|operator[^\w<(]+|operator\w+|\w+)(<.*)?$', rest)
                if r2 and q[:mm.start()].count('<') == q[:mm.start()].count('>') and '::_Alloc_hider' not in rest:
                    return ('str', C, self.w(C), r2.group(1), self.normargs(args, C))
                # member with a leading return type mentioning the string type
                k = q.rfind(mm.group(0) + '::')
                if k >= 0:
                    pre, rest = q[:k], q[k + len(mm.group(0)):]
                    r2 = re.match(r'::(~?basic_string|operator[^\w<(]+|\w+)(<.*)?$', rest)
                    if r2 and pre.count('<') == pre.count('>') and '_Alloc_hider' not in rest:
                        return ('str', C, self.w(C), r2.group(1), self.normargs(args, C))
            m3 = re.match(r'(?:.* )?std::(operator\+|operator==|operator!=|operator<|operator>|swap)<(char16_t|char32_t|wchar_t|char), std::char_traits<\2>, std::allocator<\2>>$', q)
            if m3:
                return ('strop', m3.group(2), self.w(m3.group(2)), m3.group(1), self.normargs(args, m3.group(2)))
            m4 = re.match(r'std::char_traits<(char16_t|char32_t|wchar_t|char)>::(length|assign|copy|move|find|compare)$', q)
            if m4 and m4.group(2) in ('length',):
                return ('traits', self.w(m4.group(1)), m4.group(2), args)
        return ('none',)

    def w(self, C):
        return self.wchar if C == 'wchar_t' else CH[C]

    def normargs(self, args, C):
        out = []
        for a in args:
            b = a.replace(' const', '')
            if b.startswith(('std::allocator<', 'std::initializer_list<')):
                out.append('A' if b.startswith('std::allocator') else 'il')
            elif STR.match(b):
                rest = b[STR.match(b).end():]
                if rest == '&&':
                    out.append('S&&')
                elif rest in ('&', ''):
                    out.append('S')
                else:
                    out.append('it')
            elif b in (C + '*',):
                out.append('C*')
            elif b == C or b == C + '&':
                out.append('C')
            elif b in ('unsigned long', 'long', 'int', 'unsigned int', 'std::__cxx11::basic_string<%s>::size_type' % C):
                out.append('n')
            elif '__normal_iterator' in b or '*' in b:
                t = re.match(r'(?:__gnu_cxx::__normal_iterator<)?(char|unsigned char|char16_t|char32_t|wchar_t|unsigned short|unsigned int)\*', b)
                out.append('?' + b if not t else '<%s>' % t.group(1) if t.group(1) != C else 'it')
            else:
                out.append('?' + b)
        return tuple(out)

    def call(self, st, name, dem, args, I):
        r = self.resolve(name, dem)
        k = r[0]
        if k == 'none':
            return None
        if k == 'simple':
            return r[1](st, args, I)
        if k == 'throw':
            self.ip.event('throw', r[1].split('(')[0], st, I)
            return []
        if k == 'opaque':
            return self.opaque(st, r[1], r[2], args, I)
        if k == 'str':
            return self.string(st, r[1], r[2], r[3], r[4], args, I)
        if k == 'strop':
            return self.strop(st, r[1], r[2], r[3], r[4], args, I)
        if k == 'traits':
            return self.c_strlen(st, args[0], r[1], I)
        if k == 'list':
            return self.listop(st, r[1], args, I)
        return None

    # -------------------------------------------------------------- runtime
    def op_new(self, st, args, I):
        n = args[0]
        size = n[2][0] if n[0] == 'i' and is_const(n[2]) else None
        if size is None:
            raise Imprecise("allocation of symbolic size")
        # one region per allocation site and per number of live regions from it
        key = '%s@%s' % (self.ip.stack[-1].dem.split('(')[0][-40:] if self.ip.stack else '?', id(I))
        k = 0
        while ('h', key, k) in st.mem:
            k += 1
            if k > 4000:
                raise Imprecise("unbounded allocation")
        rid = ('h', key, k)
        self.ip.regions[rid] = dict(kind='h', name='heap block', size=size)
        s = st.copy()
        s.mem = dict(st.mem)
        s.mem[rid] = {-8: (8, ('i', 64, ZERO))}
        return [(s, ('p', rid, ZERO))]

    def op_delete(self, st, args, I):
        p = args[0]
        if p[0] == 'p' and p[1] is not None and p[1][0] == 'h':
            s = st.copy()
            s.mem = {r: d for r, d in st.mem.items() if r != p[1]}
            return [(s, None)]
        return [(st, None)]

    def x___cxa_atexit(self, st, args, I):
        return [(st, ('i', 32, ZERO))]

    def x___cxa_guard_acquire(self, st, args, I):
        p = args[0]
        d = st.mem.get(p[1])
        if d and d.get(-1):
            return [(st, ('i', 32, ZERO))]
        s = st.copy()
        s.mem = dict(st.mem)
        s.mem[p[1]] = {-1: (1, ('i', 8, ONE))}
        return [(s, ('i', 32, ONE))]

    def x___cxa_guard_release(self, st, args, I):
        p = args[0]
        s = st.copy()
        s.mem = dict(st.mem)
        s.mem[p[1]] = {-1: (1, ('i', 8, const(2))), 0: (1, ('i', 8, ONE))}
        return [(s, None)]

    def x___cxa_guard_abort(self, st, args, I):
        return [(st, None)]

    def x_strlen(self, st, args, I):
        return self.c_strlen(st, args[0], 1, I)

    def x_wcslen(self, st, args, I):
        return self.c_strlen(st, args[0], self.wchar, I)

    def x_memcpy(self, st, args, I):
        return [(s, args[0]) for s in self.ip.memcpy(st, args[0], args[1], args[2], I)]

    x_memmove = x_memcpy

    def x_memset(self, st, args, I):
        return [(s, args[0]) for s in self.ip.memset(st, args[0], ('i', 8, fin(st, 8, args[1][2])), args[2], I)]

    def x_memcmp(self, st, args, I):
        a, b, n = args
        if n[0] != 'i' or not is_const(n[2]):
            raise Imprecise("memcmp of symbolic size")
        out = []
        cur = [st]
        for i in range(n[2][0]):
            nxt = []
            for s in cur:
                for s1, x in self.read(s, a, i, 1, I):
                    for s2, y in self.read(s1, b, i, 1, I):
                        tr, fa = split_eq0(s2, sub(x, y))
                        nxt += tr
                        for z in fa:
                            g, l = split_ge0(z, sub(x, y))
                            out += [(q, ('i', 32, ONE)) for q in g] + [(q, ('i', 32, const((1 << 32) - 1))) for q in l]
            cur = nxt
        out += [(s, ('i', 32, ZERO)) for s in cur]
        return out

    def x_strcmp(self, st, args, I):
        return self.cmp_c(st, args[0], args[1], None, I)

    def x_strncmp(self, st, args, I):
        n = args[2]
        if n[0] != 'i' or not is_const(n[2]):
            raise Imprecise("strncmp of symbolic size")
        return self.cmp_c(st, args[0], args[1], n[2][0], I)

    def cmp_c(self, st, a, b, n, I):
        out = []
        cur = [st]
        i = 0
        while cur and (n is None or i < n):
            if i > 300:
                raise Imprecise("string comparison")
            nxt = []
            for s in cur:
                for s1, x in self.read(s, a, i, 1, I):
                    for s2, y in self.read(s1, b, i, 1, I):
                        tr, fa = split_eq0(s2, sub(x, y))
                        for z in tr:
                            p, q = split_eq0(z, x)
                            out += [(v, ('i', 32, ZERO)) for v in p]
                            nxt += q
                        for z in fa:
                            g, l = split_ge0(z, sub(x, y))
                            out += [(q, ('i', 32, ONE)) for q in g] + [(q, ('i', 32, const((1 << 32) - 1))) for q in l]
            cur = nxt
            i += 1
        out += [(s, ('i', 32, ZERO)) for s in cur]
        return out

    def listop(self, st, op, args, I):
        """std::list link manipulation: node layout {next, prev}"""
        ip = self.ip

        def ld(s, p, off):
            return ip.load(s, ('p', p[1], addc(p[2], off)), irparse.PTR, I)[0][1]

        def sto(s, p, off, v):
            return ip.store(s, ('p', p[1], addc(p[2], off)), 8, v, I)
        if op == '_M_hook':
            node, pos = args
            prev = ld(st, pos, 8)
            s = sto(st, node, 0, pos)
            s = sto(s, node, 8, prev)
            s = sto(s, prev, 0, node)
            s = sto(s, pos, 8, node)
            return [(s, None)]
        if op == '_M_unhook':
            node = args[0]
            nx, pv = ld(st, node, 0), ld(st, node, 8)
            s = sto(st, pv, 0, nx)
            s = sto(s, nx, 8, pv)
            return [(s, None)]
        raise Imprecise("list operation " + op)

    # -------------------------------------------------------------- buffers
    def read(self, st, p, i, esz, I):
        """unit i of the buffer at pointer p -> list of (st, unsigned expr)"""
        out = []
        q = ('p', p[1], addc(p[2], i * esz)) if p[0] == 'p' else p
        for s, v in self.ip.load(st, q, ('i', 8 * esz), I):
            if v[0] != 'i':
                raise Imprecise("unit of unknown value")
            out += to_u(s, 8 * esz, v[2])
        return out

    def lenatom(self, key):
        a = self.terms.get(('len', key))
        if a is None:
            a = A.new(41, 'len(%s)' % (key,), 'plen', ((0, BIG),), key)
            self.terms[('len', key)] = a
        return a

    def c_strlen(self, st, p, esz, I):
        out = []
        for s, pieces in self.cstr_pieces(st, p, esz, I):
            out.append((s, ('i', 64, self.size(pieces))))
        return out

    def cstr_pieces(self, st, p, esz, I):
        """pieces of the zero-terminated string at p"""
        if p[0] != 'p':
            raise Imprecise("C string at unknown pointer")
        if p[1] is None:
            self.ip.event('null-deref', 'std::basic_string constructed from a null pointer', st, I)
            return []
        if p[1][0] == 'in' and not self.ip.regions[p[1]].get('bounded'):
            info = self.ip.regions[p[1]]
            if info['esz'] != esz:
                raise Imprecise("unit size mismatch")
            idx = (p[2][0] // esz, tuple((s, k // esz) for s, k in p[2][1]))
            if info.get('nulfree') and idx == ZERO:
                return [(st, info['pieces'])]
            if info['mode'] == 'len':
                self.ip.event('oob', 'length-terminated input %s used as a zero-terminated string' % info['name'], st, I)
                raise Imprecise("C string in a length-terminated buffer")
            return [(st, (('cstr', p[1], idx, self.lenatom(('cstr', p[1], idx))),))]
        out = []
        cur = [(st, ())]
        i = 0
        while cur:
            nxt = []
            for s, acc in cur:
                for s1, x in self.read(s, p, i, esz, I):
                    z, nz = split_eq0(s1, x)
                    out += [(y, acc) for y in z]
                    nxt += [(y, acc + (('u', x),)) for y in nz]
            cur = nxt
            i += 1
            if i > 5000:
                raise Imprecise("C string too long")
        return out

    def n_pieces(self, st, p, n, esz, I):
        """pieces of the n units at p (n: expr)"""
        if is_const(n):
            cur = [(st, ())]
            if n[0] > 5000:
                raise Imprecise("buffer too long")
            for i in range(n[0]):
                cur = [(s1, acc + (('u', x),)) for s, acc in cur for s1, x in self.read(s, p, i, esz, I)]
            return cur
        if p[0] == 'p' and p[1] is not None and p[1][0] == 'in':
            info = self.ip.regions[p[1]]
            idx = (p[2][0] // esz, tuple((s, k // esz) for s, k in p[2][1]))
            if info['mode'] == 'nul':
                a = self.lenatom(('cstr', p[1], idx))
                if n == atom_expr(a):
                    return [(st, (('cstr', p[1], idx, a),))]
                raise Imprecise("symbolic number of units of a zero-terminated input")
            ln = st.inp[p[1]]['len']
            ok, bad = split_ge0(st, sub(sub(ln, idx), n))
            for b in bad:
                self.ip.event('oob', 'more units of %s used than it holds' % info['name'], b, I)
            return [(s, norm_pieces((('in', p[1], idx, n),))) for s in ok]
        raise Imprecise("symbolic number of units")

    def size(self, pieces):
        e = ZERO
        for p in pieces:
            if p[0] == 'u':
                e = addc(e, 1)
            elif p[0] == 'in':
                e = add(e, p[3])
            elif p[0] == 'q':
                e = add(e, p[2])
            else:
                e = add(e, atom_expr(p[-1]))
        return e

    # strings written in place (ip.cow): a buffer that stands for the current text of its owner
    def sb(self, st, p, esz, pieces):
        ip = self.ip
        rid = ('in', ('sb', p[1], p[2][0]), 0)
        ip.regions[rid] = dict(kind='in', name='string buffer', esz=esz, mode='str', sb=(p[1], p[2][0]))
        s = st.copy()
        s.inp = dict(st.inp)
        s.inp[rid] = {'len': self.size(pieces), 'front': ZERO}
        return s, ('p', rid, ZERO)

    def sb_find(self, st, owner, idx):
        d = st.mem.get(owner[0])
        x = d.get(owner[1]) if d else None
        if not x or x[1][0] != 'str':
            raise Imprecise("buffer of a string that is gone")
        pos = ZERO
        for k, p in enumerate(x[1][2]):
            ln = self.size((p,))
            o = sub(idx, pos)
            if rng(st, o)[0] >= 0 and rng(st, sub(ln, o))[0] >= 1:
                return x, k, p, o
            pos = add(pos, ln)
        raise Imprecise("unit %s of %s" % (show_expr(idx), show_pieces(x[1][2])))

    def sb_read(self, st, owner, idx):
        x, k, p, o = self.sb_find(st, owner, idx)
        if p[0] == 'u':
            return st, p[1]
        if p[0] == 'in':
            st, a = self.ip.cell_atom(st, p[1], add(p[2], o))
            return st, atom_expr(a)
        raise Imprecise("unit of rewritten text")

    def sb_write(self, st, owner, idx, v):
        x, k, p, o = self.sb_find(st, owner, idx)
        r = to_u(st, v[1], v[2]) if v[0] == 'i' else []
        if len(r) != 1:
            raise Imprecise("store of an unreduced unit")
        st, e = r[0]
        if p[0] == 'u':
            new = (('u', e),)
        elif p[0] == 'in':
            new = (('in', p[1], p[2], o), ('u', e), ('in', p[1], addc(add(p[2], o), 1), addc(sub(p[3], o), -1)))
        else:
            raise Imprecise("store into rewritten text")
        pieces = norm_pieces(x[1][2][:k] + new + x[1][2][k + 1:])
        s = st.copy()
        s.mem = dict(st.mem)
        d = dict(s.mem[owner[0]])
        d[owner[1]] = (x[0], ('str', x[1][1], pieces))
        s.mem[owner[0]] = d
        return s

    def get(self, st, p):
        if p[0] != 'p' or p[1] is None:
            if p[0] == 'p':
                self.ip.event('null-deref', 'member call on a null string', st)
                return None
            raise Imprecise("string object at unknown address")
        if not is_const(p[2]):
            raise Imprecise("string object at a symbolic offset")
        d = st.mem.get(p[1])
        x = d.get(p[2][0]) if d else None
        if not x or x[1][0] != 'str':
            if p[1][0] == 'g':
                raise Imprecise("global string read before its constructor ran")
            raise Imprecise("use of an unconstructed string")
        return x[1][2]

    def put(self, st, p, esz, pieces):
        if p[0] != 'p' or p[1] is None or not is_const(p[2]):
            raise Imprecise("string object at unknown address")
        return self.ip.store(st, p, 32, ('str', esz, norm_pieces(pieces)))

    def drop(self, st, p):
        d = dict(st.mem.get(p[1], ()))
        d.pop(p[2][0], None)
        s = st.copy()
        s.mem = dict(st.mem)
        s.mem[p[1]] = d
        return s

    def content(self, st, p, esz):
        """pointer to the character array of the string object at p -> (st, ptr)"""
        pieces = self.get(st, p)
        if self.ip.cow and p[1] not in self.ip.args and any(x[0] == 'in' and rng(st, x[3]) != (0, 0) for x in pieces):
            return self.sb(st, p, esz, pieces)
        if self.ip.cow and p[1] not in self.ip.args and any(x[0] != 'u' for x in pieces):
            s, q = self.content_of(st, pieces, esz, (p[1], p[2][0]))
            pieces = (('in', q[1], ZERO, self.size(pieces)),)
            return self.sb(self.put(s, p, esz, pieces), p, esz, pieces)
        return self.content_of(st, pieces, esz, (p[1], p[2][0]))

    def content_of(self, st, pieces, esz, owner):
        ip = self.ip
        if all(x[0] == 'u' for x in pieces):
            n = len(pieces)
            rid = ('h', ('buf', owner, esz), 0)
            ip.regions[rid] = dict(kind='h', name='string buffer', size=(n + 1) * esz, owner=owner, esz=esz)
            d = {i * esz: (esz, ('i', 8 * esz, x[1])) for i, x in enumerate(pieces)}
            d[n * esz] = (esz, ('i', 8 * esz, ZERO))
            s = st.copy()
            s.mem = dict(st.mem)
            s.mem[rid] = d
            return s, ('p', rid, ZERO)
        if len(pieces) == 1 and pieces[0][0] == 'in':
            _, R, start, n = pieces[0]
            if ip.regions[R]['mode'] == 'str' and start == ZERO and st.inp[R]['len'] == n and 'view' not in ip.regions[R]:
                return st, ('p', R, ZERO)
            rid = ('in', ('view', R, owner), 0)
            ip.regions[rid] = dict(kind='in', name=ip.regions[R]['name'], esz=esz, mode='str', view=R)
            s = st.copy()
            s.inp = dict(st.inp)
            s.inp[rid] = {'len': n, 'start': start, 'front': ZERO}
            return s, ('p', rid, ZERO)
        if len(pieces) == 1 and pieces[0][0] == 'cstr' and ip.regions[pieces[0][1]]['mode'] == 'nul':
            return st, ('p', pieces[0][1], scale(pieces[0][2], esz))
        # anything else: an opaque buffer named after its content
        key = ('obuf', pieces)
        rid = ('in', key, 0)
        if rid not in ip.regions:
            nf = len(pieces) == 1 and pieces[0][0] == 'app' and pieces[0][1][0] in self.nulfree
            ip.regions[rid] = dict(kind='in', name=show_pieces(pieces), esz=esz, mode='str', nulfree=nf, pieces=pieces)
        s = st.copy()
        s.inp = dict(st.inp)
        s.inp[rid] = {'len': self.size(pieces), 'front': ZERO}
        return s, ('p', rid, ZERO)

    def unit_at(self, st, pieces, i):
        """value of unit i: list of (st, expr)"""
        if is_const(i) and all(x[0] == 'u' for x in pieces[:i[0] + 1]) and i[0] < len(pieces):
            return [(st, pieces[i[0]][1])]
        raise Imprecise("unit of a symbolic string")

    def slice(self, st, pieces, a, b):
        """units a..b of pieces (0 <= a <= b <= size already established)"""
        if a == ZERO and b == self.size(pieces):
            return pieces
        if a == b:
            return ()
        if len(pieces) == 1 and pieces[0][0] == 'in':
            return (('in', pieces[0][1], add(pieces[0][2], a), sub(b, a)),)
        # cut at piece boundaries / constant positions
        pos = ZERO
        out = []
        started = False
        for p in pieces:
            ln = self.size((p,))
            if not started:
                if pos == a:
                    started = True
                elif p[0] != 'u' and p[0] != 'in':
                    pos = add(pos, ln)
                    continue
                elif p[0] == 'in' and rng(st, sub(a, pos))[0] >= 0 and rng(st, sub(add(pos, ln), a))[0] >= 0:
                    k = sub(a, pos)
                    started = True
                    p = ('in', p[1], add(p[2], k), sub(p[3], k))
                    ln = p[3]
                    pos = a
                else:
                    pos = add(pos, ln)
                    continue
            if started:
                if pos == b:
                    return tuple(out)
                if p[0] == 'in' and add(pos, ln) != b and rng(st, sub(add(pos, ln), b))[0] >= 0 and rng(st, sub(b, pos))[0] >= 0:
                    out.append(('in', p[1], p[2], sub(b, pos)))
                    return tuple(out)
                out.append(p)
                pos = add(pos, ln)
        if started and pos == b:
            return tuple(out)
        raise Imprecise("slice of a symbolic string")

    # -------------------------------------------------------------- members
    def string(self, st, C, esz, meth, at, args, I):
        ip = self.ip
        this = args[0]
        at = tuple(x for x in at if x != 'A')
        if len(at) == 2 and at[0] == at[1] and at[0][:1] == '<':
            if meth not in ('basic_string', 'assign', 'append'):
                raise Imprecise("std::basic_string::%s of units of another type" % meth)
            if meth != 'append':
                st = self.put(st, this, esz, ())
            f = self.ip.m.funcs.get('@sa_fill_%s_%s' % (C, at[0][1:-1].replace(' ', '_')))
            if f is None:
                raise Imprecise("std::basic_string::%s of units of type %s" % (meth, at[0][1:-1]))
            return [(s, this) for s, _ in ip.exec(f, list(args[:3]), st)]
        fn = getattr(self, 's_' + meth.replace('~', 'd_').replace('operator', 'op_').replace('[]', 'idx').replace('+=', 'pluseq').replace('=', 'assign').strip(), None)
        sret = False
        # functions returning a string by value take the result slot first
        if meth in ('substr',):
            sret = True
        if fn is None:
            if meth.startswith('_M_') or meth.startswith('_S_'):
                raise Imprecise("std::basic_string internals: " + meth)
            raise Imprecise("std::basic_string::%s(%s) is not modelled" % (meth, ', '.join(at)))
        at = tuple(x for x in at if x != 'A')
        return fn(st, esz, at, args, I)

    def vals(self, st, args, at, esz, I):
        """pieces denoted by an argument list (after this) -> list of (st, pieces)"""
        if at == ():
            return [(st, ())]
        if at[0] in ('S', 'S&&'):
            pc = self.get(st, args[0])
            if pc is None:
                return []
            if len(at) == 1:
                return [(st, pc)]
            if at in (('S', 'n'), ('S', 'n', 'n')):
                n = args[2] if len(at) == 3 else ('i', 64, const(NPOS))
                return self.sub(st, pc, args[1], n, I)
        if at == ('C*',):
            return self.cstr_pieces(st, args[0], esz, I)
        if at == ('C*', 'n'):
            return [y for s, n in to_u(st, 64, args[1][2]) for y in self.n_pieces(s, args[0], n, esz, I)]
        if at == ('n', 'C'):
            out = []
            for s, n in to_u(st, args[0][1], args[0][2]):
                if not is_const(n):
                    raise Imprecise("symbolic repetition")
                for s2, c in to_u(s, 8 * esz, args[1][2]):
                    out.append((s2, (('u', c),) * n[0]))
            return out
        if at == ('C',):
            return [(s, (('u', c),)) for s, c in to_u(st, 8 * esz, args[0][2])]
        if len(at) == 2 and all(x in ('it', 'C*') for x in at) and args[0][0] == 'p' and args[1][0] == 'p' and args[0][1] == args[1][1]:
            d = sub(args[1][2], args[0][2])
            n = (d[0] // esz, tuple((s, k // esz) for s, k in d[1]))
            return self.n_pieces(st, args[0], n, esz, I)
        if len(at) == 2 and at[0] == 'n' and at[1] == '?char' or (len(at) == 2 and at[0] == 'n' and args[1][0] == 'i'):
            return self.vals(st, args, ('n', 'C'), esz, I)
        if at[0] == 'il':
            p, n = args[0], args[1]
            if n[0] == 'i' and is_const(n[2]):
                return self.n_pieces(st, p, n[2], esz, I)
        raise Imprecise("string arguments (%s)" % ', '.join(at))

    def s_basic_string(self, st, esz, at, args, I):
        out = []
        for s, pc in self.vals(st, args[1:], at, esz, I):
            if at == ('S&&',):
                s = self.put(s, args[1], esz, ())
            s = self.put(s, args[0], esz, pc)
            if s:
                out.append((s, None))
        return out

    def s_d_basic_string(self, st, esz, at, args, I):
        return [(self.drop(st, args[0]), None)]

    def s_assign(self, st, esz, at, args, I):
        if at == ('C',):
            raise Imprecise("assign")
        out = []
        for s, pc in self.vals(st, args[1:], at, esz, I):
            if at == ('S&&',) and args[0] != args[1]:
                s = self.put(s, args[1], esz, ())
            out.append((self.put(s, args[0], esz, pc), args[0]))
        return out

    def s_op_assign(self, st, esz, at, args, I):
        out = []
        for s, pc in self.vals(st, args[1:], at, esz, I):
            if at == ('S&&',) and args[0] != args[1]:
                s = self.put(s, args[1], esz, ())
            out.append((self.put(s, args[0], esz, pc), args[0]))
        return out

    def s_append(self, st, esz, at, args, I):
        out = []
        for s, pc in self.vals(st, args[1:], at, esz, I):
            old = self.get(s, args[0])
            out.append((self.put(s, args[0], esz, old + pc), args[0]))
        return out

    s_op_pluseq = s_append

    def s_push_back(self, st, esz, at, args, I):
        return [(s, None) for s, _ in self.s_append(st, esz, ('C',), args, I)]

    def s_pop_back(self, st, esz, at, args, I):
        pc = self.get(st, args[0])
        out = []
        ok, bad = split_ge0(st, addc(self.size(pc), -1))
        for b in bad:
            self.ip.event('oob', 'pop_back on an empty string', b, I)
        for s in ok:
            out.append((self.put(s, args[0], esz, self.slice(s, pc, ZERO, addc(self.size(pc), -1))), None))
        return out

    def s_clear(self, st, esz, at, args, I):
        return [(self.put(st, args[0], esz, ()), None)]

    def s_reserve(self, st, esz, at, args, I):
        if at and args[1][0] == 'i':
            for s, n in to_u(st, 64, args[1][2]):
                if rng(s, n)[1] > (1 << 62) // esz:
                    self.ip.event('throw', 'reserve() beyond max_size()', s, I)
        return [(st, None)]

    def s_shrink_to_fit(self, st, esz, at, args, I):
        return [(st, None)]

    def s_resize(self, st, esz, at, args, I):
        pc = self.get(st, args[0])
        out = []
        c = args[2][2] if len(at) > 1 else ZERO
        for s, n in to_u(st, 64, args[1][2]):
            sz = self.size(pc)
            sh, gr = split_ge0(s, sub(sz, n))
            for x in sh:
                out.append((self.put(x, args[0], esz, self.slice(x, pc, ZERO, n)), None))
            for x in gr:
                d = sub(n, sz)
                if not is_const(d):
                    raise Imprecise("symbolic resize")
                out.append((self.put(x, args[0], esz, pc + (('u', c),) * d[0]), None))
        return out

    def s_size(self, st, esz, at, args, I):
        pc = self.get(st, args[0])
        if pc is None:
            return []
        return [(st, ('i', 64, self.size(pc)))]

    s_length = s_size
    s_capacity = s_size

    def s_max_size(self, st, esz, at, args, I):
        return [(st, ('i', 64, const((1 << 62) // esz)))]

    def s_empty(self, st, esz, at, args, I):
        pc = self.get(st, args[0])
        if pc is None:
            return []
        tr, fa = split_eq0(st, self.size(pc))
        return [(s, ('i', 1, ONE)) for s in tr] + [(s, ('i', 1, ZERO)) for s in fa]

    def s_c_str(self, st, esz, at, args, I):
        if self.get(st, args[0]) is None:
            return []
        return [self.content(st, args[0], esz)]

    s_data = s_c_str
    s_begin = s_c_str
    s_cbegin = s_c_str

    def s_end(self, st, esz, at, args, I):
        pc = self.get(st, args[0])
        if pc is None:
            return []
        s, p = self.content(st, args[0], esz)
        return [(s, ('p', p[1], add(p[2], scale(self.size(pc), esz))))]

    s_cend = s_end

    def elem(self, st, esz, p, i, I, limit, what):
        """pointer to unit i; limit 0: i <= size allowed, 1: i < size"""
        pc = self.get(st, p)
        if pc is None:
            return []
        out = []
        ok, bad = split_ge0(st, addc(sub(self.size(pc), i), -limit))
        for b in bad:
            self.ip.event(what, 'string index out of range', b, I)
        for s in ok:
            s2, q = self.content(s, p, esz)
            out.append((s2, ('p', q[1], add(q[2], scale(i, esz)))))
        return out

    def s_op_idx(self, st, esz, at, args, I):
        return [y for s, i in to_u(st, 64, args[1][2]) for y in self.elem(s, esz, args[0], i, I, 0, 'oob')]

    def s_at(self, st, esz, at, args, I):
        return [y for s, i in to_u(st, 64, args[1][2]) for y in self.elem(s, esz, args[0], i, I, 1, 'throw')]

    def s_front(self, st, esz, at, args, I):
        return self.elem(st, esz, args[0], ZERO, I, 1, 'oob')

    def s_back(self, st, esz, at, args, I):
        pc = self.get(st, args[0])
        ok, bad = split_ge0(st, addc(self.size(pc), -1))
        for b in bad:
            self.ip.event('oob', 'back() of an empty string', b, I)
        return [y for s in ok for y in self.elem(s, esz, args[0], addc(self.size(pc), -1), I, 1, 'oob')]

    def sub(self, st, pc, pos, n, I):
        out = []
        sz = self.size(pc)
        for s, a in to_u(st, 64, pos[2]):
            ok, bad = split_ge0(s, sub(sz, a))
            for b in bad:
                self.ip.event('throw', 'std::out_of_range: position beyond the end of a string', b, I)
            for s1 in ok:
                if n[2] == const(NPOS):
                    out.append((s1, self.slice(s1, pc, a, sz)))
                    continue
                for s2, k in to_u(s1, 64, n[2]):
                    full, part = split_ge0(s2, sub(add(a, k), sz))
                    out += [(x, self.slice(x, pc, a, sz)) for x in full]
                    out += [(x, self.slice(x, pc, a, add(a, k))) for x in part]
        return out

    def s_substr(self, st, esz, at, args, I):
        res, this = args[0], args[1]
        pos = args[2] if len(args) > 2 else ('i', 64, ZERO)
        n = args[3] if len(args) > 3 else ('i', 64, const(NPOS))
        pc = self.get(st, this)
        return [(self.put(s, res, esz, p), None) for s, p in self.sub(st, pc, pos, n, I)]

    def s_erase(self, st, esz, at, args, I):
        pc = self.get(st, args[0])
        sz = self.size(pc)
        out = []
        if at and at[0] == 'it':
            s0, q = self.content(st, args[0], esz)
            base = q[2]

            def ix(p):
                d = sub(p[2], base)
                return (d[0] // esz, tuple((s, k // esz) for s, k in d[1]))
            a = ix(args[1])
            b = ix(args[2]) if len(at) > 1 else addc(a, 1)
            pre, post = self.slice(st, pc, ZERO, a), self.slice(st, pc, b, sz)
            s = self.put(st, args[0], esz, pre + post)
            s, q2 = self.content(s, args[0], esz)
            return [(s, ('p', q2[1], add(q2[2], scale(a, esz))))]
        pos = args[1] if len(args) > 1 else ('i', 64, ZERO)
        n = args[2] if len(args) > 2 else ('i', 64, const(NPOS))
        for s, a in to_u(st, 64, pos[2]):
            ok, bad = split_ge0(s, sub(sz, a))
            for b in bad:
                self.ip.event('throw', 'std::out_of_range: erase beyond the end of a string', b, I)
            for s1 in ok:
                if n[2] == const(NPOS):
                    parts = [(s1, sz)]
                else:
                    parts = []
                    for s2, k in to_u(s1, 64, n[2]):
                        full, part = split_ge0(s2, sub(add(a, k), sz))
                        parts += [(x, sz) for x in full] + [(x, add(a, k)) for x in part]
                for x, b in parts:
                    new = self.slice(x, pc, ZERO, a) + self.slice(x, pc, b, sz)
                    out.append((self.put(x, args[0], esz, new), args[0]))
        return out

    def s_insert(self, st, esz, at, args, I):
        pc = self.get(st, args[0])
        if at and at[0] == 'n':
            out = []
            for s, a in to_u(st, 64, args[1][2]):
                for s2, new in self.vals(s, args[2:], at[1:], esz, I):
                    p = self.slice(s2, pc, ZERO, a) + new + self.slice(s2, pc, a, self.size(pc))
                    out.append((self.put(s2, args[0], esz, p), args[0]))
            return out
        raise Imprecise("string insert")

    def s_swap(self, st, esz, at, args, I):
        a, b = self.get(st, args[0]), self.get(st, args[1])
        s = self.put(st, args[0], esz, b)
        return [(self.put(s, args[1], esz, a), None)]

    def s_get_allocator(self, st, esz, at, args, I):
        return [(st, UNDEF)]

    # ---- searching
    def needle(self, st, at, args, esz, I):
        """-> list of (st, set of unit exprs or pieces, pos expr or None)"""

    def search(self, st, esz, at, args, I, mode):
        """mode: (first|last, of|not) membership search, or substring"""
        pc = self.get(st, args[0])
        if pc is None:
            return []
        first = mode[0] == 'first'
        NP = ('i', 64, const(NPOS))
        if at[0] == 'C':
            needles = [(s, (('u', c),)) for s, c in to_u(st, 8 * esz, args[1][2])]
            pos = args[2] if len(at) > 1 else None
        elif at[0] == 'S':
            needles = [(st, self.get(st, args[1]))]
            pos = args[2] if len(at) > 1 else None
        elif at == ('C*', 'n', 'n'):
            needles = self.n_pieces(st, args[1], args[3][2], esz, I)
            pos = args[2]
        else:
            needles = self.cstr_pieces(st, args[1], esz, I)
            pos = args[2] if len(at) > 1 else None
        out = []
        for s0, nd in needles:
            if pos is None or (not first and pos[2] == const(NPOS)):
                starts = [(s0, ZERO if first else None)]
            else:
                starts = to_u(s0, 64, pos[2])
            for s, p0 in starts:
                if all(x[0] == 'u' for x in pc) and all(x[0] == 'u' for x in nd) and (p0 is None or is_const(p0)):
                    n = len(pc)
                    if mode[1] == 'sub':
                        out += self.search_sub(s, pc, nd, p0, first)
                        continue
                    order = range(p0[0] if p0 else 0, n) if first else range(min(n - 1, p0[0] if p0 is not None else n - 1), -1, -1)
                    cur = [s]
                    for i in order:
                        nxt = []
                        for x in cur:
                            inn, outn = self.member(x, pc[i][1], nd)
                            hit, miss = (inn, outn) if mode[1] == 'of' else (outn, inn)
                            out += [(y, ('i', 64, const(i))) for y in hit]
                            nxt += miss
                        cur = nxt
                    out += [(x, NP) for x in cur]
                elif self.by_runs(s, pc, nd, p0, mode, out):
                    pass
                elif mode[1] == 'of' and len(nd) == 1 and nd[0][0] == 'u' and (p0 is None or p0 == ZERO):
                    # is this unit one of an unknown set?  an uninterpreted membership test
                    term = ('member', freeze(pc), nd[0][1])
                    a = self.cond_atom(term)
                    q = A.new(41, 'position', 'free', ((0, BIG),))
                    x = self.assume(s, term, a, 1)
                    if x:
                        out.append((x, ('i', 64, atom_expr(q))))
                    x = self.assume(s, term, a, 0)
                    if x:
                        out.append((x, NP))
                elif len(pc) == 1 and pc[0][0] == 'in' and (p0 is None or p0 == ZERO):
                    # first/last position of the window whose membership has the wanted polarity
                    R, start, ln = pc[0][1:]
                    key = ('search', mode, R, start, ln, freeze(nd))
                    a = self.cond_atom(key)
                    q = self.terms.get(('pos', key))
                    if q is None:
                        q = self.terms[('pos', key)] = A.new(41, 'pos', 'pos', ((0, BIG),), key)
                    x = self.assume(s, key, a, 0)
                    if x:
                        out.append((x, NP))
                    x = self.assume(s, key, a, 1)
                    if x:
                        ok, _ = split_ge0(x, addc(sub(ln, atom_expr(q)), -1))
                        out += [(y, ('i', 64, atom_expr(q))) for y in ok]
                else:
                    raise Imprecise("search in a symbolic string %s from %s" % (show_pieces(pc), p0 and show_expr(p0)))
        return out

    def by_runs(self, s, pc, nd, p0, mode, out):
        """membership search in a string made of runs over known alphabets: decided run by run"""
        if mode[1] == 'sub' and len(nd) != 1 or not all(x[0] == 'u' and is_const(x[1]) for x in nd) or not pc:
            return False
        want = norm([(x[1][0], x[1][0]) for x in nd]) if nd else ()
        neg = mode[1] == 'not'

        def kind(p):
            d = None
            if p[0] == 'u':
                lo = self.values(s, p[1])
                d = lo
            elif p[0] == 'in':
                d = self.ip.regions[p[1]].get('alpha')
            if d is None:
                return None
            if not inter(d, want):
                return neg
            if subset(d, want):
                return not neg
            return 'split' if p[0] == 'u' else None
        ks = [kind(p) for p in pc]
        if any(k is None for k in ks):
            return False
        pos = [ZERO]
        for p in pc:
            pos.append(add(pos[-1], self.size((p,))))
        first = mode[0] == 'first'
        if first:
            if p0 is None:
                p0 = ZERO
            i0 = [i for i in range(len(pos)) if pos[i] == p0]
            if not i0:
                over, _ = split_ge0(s, sub(p0, addc(pos[-1], 1)))
                if not _ and over:
                    out += [(x, ('i', 64, const(NPOS))) for x in over]
                    return True
                return False
            order = range(i0[0], len(pc))
        else:
            if p0 is None:
                order = range(len(pc) - 1, -1, -1)
            else:
                i0 = [i for i in range(len(pc)) if addc(pos[i + 1], -1) == p0]
                if not i0:
                    return False
                order = range(i0[-1], -1, -1)
        cur = [s]
        for i in order:
            nxt = []
            for x in cur:
                here = pos[i] if first else addc(pos[i + 1], -1)
                if ks[i] is True:
                    ge, lt = split_ge0(x, addc(self.size((pc[i],)), -1))
                    out += [(y, ('i', 64, here)) for y in ge]
                    nxt += lt
                elif ks[i] is False:
                    nxt.append(x)
                else:
                    a, b = self.member(x, pc[i][1], nd)
                    hit, miss = (b, a) if neg else (a, b)
                    out += [(y, ('i', 64, here)) for y in hit]
                    nxt += miss
            cur = nxt
        out += [(x, ('i', 64, const(NPOS))) for x in cur]
        return True

    def values(self, st, e):
        if is_const(e):
            return ((e[0], e[0]),)
        if len(e[1]) == 1 and e[1][0][1] == 1:
            return shift(slice_set(st, e[1][0][0]), e[0])
        return None

    def search_sub(self, s, pc, nd, p0, first):
        n, m = len(pc), len(nd)
        a = p0[0] if p0 is not None else (0 if first else n)
        order = range(a, n - m + 1) if first else range(min(n - m, a), -1, -1)
        out = []
        cur = [s]
        for i in order:
            nxt = []
            for x in cur:
                hit = [x]
                for j in range(m):
                    h2 = []
                    for y in hit:
                        tr, fa = split_eq0(y, sub(pc[i + j][1], nd[j][1]))
                        h2 += tr
                        nxt += fa
                    hit = h2
                out += [(y, ('i', 64, const(i))) for y in hit]
            cur = nxt
        out += [(x, ('i', 64, const(NPOS))) for x in cur]
        return out

    def member(self, st, e, nd):
        """is unit e one of the (unit) pieces nd -> (in, out)"""
        if all(is_const(x[1]) for x in nd) and len(e[1]) == 1 and abs(e[1][0][1]) == 1:
            sl, k = e[1][0]
            want = norm([((x[1][0] - e[0]) * k,) * 2 for x in nd])
            dom = slice_set(st, sl)
            i, o = inter(dom, want), diff(dom, want)
            a = refine_slice(st, sl, i) if i else None
            b = refine_slice(st, sl, o) if o else None
            return ([a] if a else []), ([b] if b else [])
        inn, cur = [], [st]
        for x in nd:
            nxt = []
            for s in cur:
                tr, fa = split_eq0(s, sub(e, x[1]))
                inn += tr
                nxt += fa
            cur = nxt
        return inn, cur

    def s_find(self, st, esz, at, args, I):
        if at[0] == 'C':
            return self.search(st, esz, at, args, I, ('first', 'of'))
        return self.search(st, esz, at, args, I, ('first', 'sub'))

    def s_rfind(self, st, esz, at, args, I):
        if at[0] == 'C':
            return self.search(st, esz, at, args, I, ('last', 'of'))
        return self.search(st, esz, at, args, I, ('last', 'sub'))

    def s_find_first_of(self, st, esz, at, args, I):
        return self.search(st, esz, at, args, I, ('first', 'of'))

    def s_find_last_of(self, st, esz, at, args, I):
        return self.search(st, esz, at, args, I, ('last', 'of'))

    def s_find_first_not_of(self, st, esz, at, args, I):
        return self.search(st, esz, at, args, I, ('first', 'not'))

    def s_find_last_not_of(self, st, esz, at, args, I):
        return self.search(st, esz, at, args, I, ('last', 'not'))

    def s_compare(self, st, esz, at, args, I):
        a = self.get(st, args[0])
        out = []
        if at not in (('S',), ('C*',)):
            raise Imprecise("string compare")
        for s, b in self.vals(st, args[1:], at, esz, I):
            for s2, eq in self.equal(s, a, b):
                # only the sign against zero of an equality is modelled
                if eq:
                    out.append((s2, ('i', 32, ZERO)))
                else:
                    q = A.new(32, 'order', 'free', iset((1, (1 << 31) - 1), (1 << 31, (1 << 32) - 1)))
                    s3 = s2.copy()
                    s3.approx = True
                    out.append((s3, ('i', 32, atom_expr(q))))
        return out

    def equal(self, st, a, b):
        if a == b:
            return [(st, 1)]
        if all(x[0] == 'u' for x in a) and all(x[0] == 'u' for x in b):
            if len(a) != len(b):
                return [(st, 0)]
            cur, out = [st], []
            for x, y in zip(a, b):
                nxt = []
                for s in cur:
                    tr, fa = split_eq0(s, sub(x[1], y[1]))
                    nxt += tr
                    out += [(z, 0) for z in fa]
                cur = nxt
            return out + [(s, 1) for s in cur]
        if not a or not b:
            e = self.size(a or b)
            tr, fa = split_eq0(st, e)
            return [(s, 1) for s in tr] + [(s, 0) for s in fa]
        # symbolic content against literal units: unit by unit for buffers
        for u, v in ((a, b), (b, a)):
            if all(x[0] == 'u' for x in u) and len(v) == 1 and v[0][0] in ('in', 'cstr'):
                R, start = v[0][1], v[0][2]
                esz = self.ip.regions[R]['esz']
                cur, out = [st], []
                for i, x in enumerate(u + ((('u', ZERO)),)):
                    nxt = []
                    for s in cur:
                        if v[0][0] == 'in':
                            d = addc(sub(v[0][3], ZERO), -i)
                            end, more = split_eq0(s, d)
                            if i == len(u):
                                out += [(z, 1) for z in end] + [(z, 0) for z in more]
                                continue
                            out += [(z, 0) for z in end]
                            srcs = more
                        else:
                            srcs = [s]
                        for s1 in srcs:
                            for s2, y in self.read(s1, ('p', R, scale(addc(start, i), esz)), 0, esz, None):
                                tr, fa = split_eq0(s2, sub(x[1], y))
                                out += [(z, 0) for z in fa]
                                if i == len(u):
                                    out += [(z, 1) for z in tr]
                                else:
                                    nxt += tr
                    cur = nxt
                return out
        term = ('eq', freeze(a), freeze(b))
        at = self.cond_atom(term)
        out = []
        for v in (0, 1):
            x = self.assume(st, term, at, v)
            if x:
                out.append((x, v))
        return out

    def strop(self, st, C, esz, op, at, args, I):
        if op == 'operator+':
            res = args[0]
            out = []
            for s, a in self.vals(st, args[1:2], (at[0],), esz, I):
                for s2, b in self.vals(s, args[2:3], (at[1],), esz, I):
                    out.append((self.put(s2, res, esz, a + b), None))
            return out
        if op in ('operator==', 'operator!='):
            out = []
            for s, a in self.vals(st, args[0:1], (at[0],), esz, I):
                for s2, b in self.vals(s, args[1:2], (at[1],), esz, I):
                    for s3, eq in self.equal(s2, a, b):
                        v = eq if op == 'operator==' else 1 - eq
                        out.append((s3, ('i', 1, const(v))))
            return out
        if op == 'swap':
            return self.s_swap(st, esz, at, args, I)
        raise Imprecise("string operator " + op)

    # -------------------------------------------------------------- summarised calls
    def cond_atom(self, term):
        a = self.terms.get(('cond', term))
        if a is None:
            a = A.new(1, 'cond', 'cond', None, term)
            self.terms[('cond', term)] = a
        return a

    def assume(self, st, term, a, v):
        s = refine_slice(st, (a, 0, 1), ((v, v),))
        if s is None:
            return None
        if (term, a) not in s.conds:
            s = s.copy()
            s.conds = s.conds + ((term, a),)
        return s

    def argterm(self, st, ty, v):
        """canonical description of an argument"""
        if v[0] == 'i':
            return v[2]
        if v[0] == 'p':
            if v[1] is None:
                return ('null',)
            if STR.search(ty):
                return ('strval', freeze(self.get(st, v)))
            if 'EncodingCheckPredicate' in ty:
                d = st.mem.get(v[1], {})
                o = v[2][0] if is_const(v[2]) else None
                x, y = d.get(o), d.get(o + 4) if o is not None else None
                return ('pred', x[1][2] if x else None, y[1][2] if y else None)
            if v[1][0] == 'in':
                info = self.ip.regions[v[1]]
                if info.get('pieces') is not None and v[2] == ZERO:
                    return ('cs', info['pieces'])
                if 'view' in info:
                    raise Imprecise("pointer into a string window")
                return ('at', v[1], v[2])
            if v[1][0] == 'h' and self.ip.regions[v[1]].get('owner'):
                d = st.mem[v[1]]
                us = tuple(x[1][2] for o, x in sorted(d.items()) if o >= 0)
                return ('lit', us[:-1])
            if v[1][0] in 'ga' and is_const(v[2]) and 'char' in ty:
                # literal
                r = self.cstr_pieces(st, v, self.w(ty.replace(' const', '').replace('*', '').strip()), None)
                if len(r) == 1:
                    return ('lit', tuple(x[1] for x in r[0][1]))
        raise Imprecise("argument of a summarised call: %r" % (v,))

    def opaque(self, st, op, dem, args, I):
        """op: (canonical name, result kind) ; kinds: bool, u32, str1, str2, str4"""
        q, at = split_sig(dem)
        cname, kind = op[0], op[1]
        drop = op[2] if len(op) > 2 else ()
        if kind.startswith('inpl'):
            # changes its first argument, a string, in place
            esz = int(kind[4:])
            pc = self.get(st, args[0])
            if pc is None:
                return []
            term = (cname, ('strval', freeze(pc)))
            return [(self.put(st, args[0], esz, (('app', term, self.lenatom(term)),)), None)]
        sret = kind.startswith('str')
        a = args[1:] if sret else args
        states = [(st, ())]
        for i, (ty, v) in enumerate(zip(at, a)):
            if i in drop:
                continue
            nxt = []
            for s, acc in states:
                if v[0] == 'i':
                    for s2, e in to_u(s, v[1], v[2]):
                        nxt.append((s2, acc + (e,)))
                else:
                    nxt.append((s, acc + (self.argterm(s, ty, v),)))
            states = nxt
        out = []
        for s, acc in states:
            term = (cname,) + acc
            if kind == 'bool':
                at_ = self.cond_atom(term)
                for v in (0, 1):
                    x = self.assume(s, term, at_, v)
                    if x:
                        out.append((x, ('i', 1, const(v))))
            elif kind == 'u32':
                t = self.terms.get(('u32', term))
                if t is None:
                    t = self.terms[('u32', term)] = A.new(32, 'call', 'call', None, term)
                out.append((s, ('i', 32, atom_expr(t))))
            else:
                esz = int(kind[3:])
                if esz == 9:
                    esz = self.wchar
                la = self.lenatom(term)
                out.append((self.put(s, args[0], esz, (('app', term, la),)), None))
        return out


def freeze(pieces):
    return tuple(pieces) if pieces is not None else None


def norm_pieces(pieces):
    out = []
    for p in pieces:
        if p[0] == 'in':
            if p[3] == ZERO:
                continue
            if out and out[-1][0] == 'in' and out[-1][1] == p[1] and add(out[-1][2], out[-1][3]) == p[2]:
                out[-1] = ('in', p[1], out[-1][2], add(out[-1][3], p[3]))
                continue
        out.append(p)
    return tuple(out)


def show_pieces(pieces):
    out = []
    for p in pieces:
        if p[0] == 'u':
            out.append(show_expr(p[1]))
        elif p[0] == 'in':
            out.append('%s[%s..+%s]' % (p[1][1], show_expr(p[2]), show_expr(p[3])))
        elif p[0] == 'app':
            out.append('%s(...)' % (p[1][0],))
        else:
            out.append('<%s>' % p[0])
    return ' '.join(out)
