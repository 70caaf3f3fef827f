"""A small parser for textual LLVM 18 IR (opaque pointers), function bodies parsed lazily."""
import re
import subprocess

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"            |
   [%@!\#$]"(?:[^"\\]|\\.)*"     |
   "(?:[^"\\]|\\.)*"             |
   [%@][-a-zA-Z$._0-9]+          |
   ![a-zA-Z0-9_.]+               |
   \#\d+                         |
   -?\d+\.\d+(?:e[+-]?\d+)?      |
   0x[0-9A-Fa-f]+                |
   -?\d+                         |
   [a-zA-Z_][a-zA-Z0-9_.]*       |
   \.\.\.                        |
   [()\[\]{}<>,=*!|:]
''', re.X)


def toks(s):
    return TOK.findall(s)


class T:
    """types: ('i',n) ('ptr',) ('void',) ('arr',n,t) ('st',(t..),packed) ('named',name) ('f',)"""


I1 = ('i', 1)
I8 = ('i', 8)
PTR = ('ptr',)
VOID = ('void',)

PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref',
                   'elementtype', 'preallocated', 'inalloca', 'captures', 'range', 'memory',
                   'nofpclass', 'initializes', 'allocsize'}
PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly',
               'readnone', 'writeonly', 'writable', 'dead_on_unwind', 'immarg', 'returned', 'nest', 'swiftself',
               'nofree', 'allocptr', 'noext'}


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'b', 'c', 'd', 'dbg', 'idx', 'key')

    def __init__(self, op, res=None, ty=None, a=None, b=None, c=None, d=None, dbg=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.b = b
        self.c = c
        self.d = d
        self.dbg = dbg


class Block:
    __slots__ = ('name', 'instrs', 'phis', 'succs', 'preds')


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod = mod
        self.name = name
        self.header = header
        self.lines = lines
        self.parsed = False
        self.dem = name
        self.ret = None
        self.params = []
        self.attrs_sub = None

    def parse(self):
        if not self.parsed:
            self.parsed = True
            parse_function(self)
            analyse_cfg(self)
        return self


class P:
    def __init__(self, mod, tokens):
        self.m = mod
        self.t = tokens
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError("expected %r got %r in %r" % (x, y, self.t[:60]))

    def type(self):
        t = self.next()
        if t == 'ptr':
            r = PTR
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif t == 'void':
            r = VOID
        elif t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif t == '{':
            el = []
            while not self.eat('}'):
                el.append(self.type())
                self.eat(',')
            r = ('st', tuple(el), False)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                el = []
                while not self.eat('}'):
                    el.append(self.type())
                    self.eat(',')
                self.expect('>')
                r = ('st', tuple(el), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t[0] == '%':
            r = ('named', t)
        elif t in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            r = ('f', {'float': 4, 'double': 8, 'half': 2}.get(t, 16))
        elif t in ('metadata', 'label', 'token', 'opaque'):
            r = (t,)
        else:
            raise SyntaxError("type? %r in %r" % (t, self.t[:40]))
        # function type  T (args)
        if self.peek() == '(' and self.m_functype:
            pass
        return r

    m_functype = False

    def skip_params_attrs(self):
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.next()
            elif t in PARAM_ATTRS_ARG:
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                elif t == 'align':
                    self.next()
            else:
                return

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def value(self, ty):
        """-> operand: ('l',name) local, ('k',pyvalue) int const, ('g',name) global, ('n',) null,
        ('u',) undef, ('z',) zeroinit, ('agg',ty,[ops]), ('str',bytes), ('ce',op,...)"""
        t = self.next()
        c = t[0]
        if c == '%':
            return ('l', t)
        if c == '@':
            return ('g', t)
        if c == '-' or c.isdigit():
            if t.startswith('0x'):
                return ('u',)
            if '.' in t:
                return ('u',)
            return ('k', int(t))
        if t == 'true':
            return ('k', 1)
        if t == 'false':
            return ('k', 0)
        if t == 'null':
            return ('n',)
        if t in ('undef', 'poison', 'none'):
            return ('u',)
        if t == 'zeroinitializer':
            return ('z', ty)
        if t.startswith('c"'):
            return ('str', unesc(t[2:-1]))
        if t == '[' or t == '{' or t == '<':
            close = {'[': ']', '{': '}', '<': '>'}[t]
            el = []
            packed = False
            if t == '<' and self.peek() == '{':
                self.next()
                packed = True
                close = '}'
            while not self.eat(close):
                ety = self.type()
                el.append((ety, self.value(ety)))
                self.eat(',')
            if packed:
                self.expect('>')
            return ('agg', ty, el)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                x = self.next()
                if x == 'inrange' and self.peek() == '(':
                    self.skip_paren()
            self.expect('(')
            bty = self.type()
            self.expect(',')
            pty = self.type()
            base = self.value(pty)
            idx = []
            while self.eat(','):
                self.eat('inrange')
                ity = self.type()
                idx.append((ity, self.value(ity)))
            self.expect(')')
            return ('ce', 'gep', bty, base, idx)
        if t in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext'):
            self.expect('(')
            fty = self.type()
            v = self.value(fty)
            self.expect('to')
            tty = self.type()
            self.expect(')')
            return ('ce', t, fty, v, tty)
        if t in ('sub', 'add', 'xor'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            ty1 = self.type()
            v1 = self.value(ty1)
            self.expect(',')
            ty2 = self.type()
            v2 = self.value(ty2)
            self.expect(')')
            return ('ce', t, ty1, v1, v2)
        if t == 'blockaddress' or t == 'dso_local_equivalent' or t == 'no_cfi':
            return ('u',)
        if t == 'asm':
            return ('u',)
        raise SyntaxError("value? %r in %r" % (t, self.t[:60]))

    def tv(self):
        ty = self.type()
        self.skip_params_attrs()
        return ty, self.value(ty)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'nusw', 'fast', 'nnan', 'ninf', 'nsz'}


def split_dbg(line):
    m = re.search(r', !dbg (!\d+)', line)
    dbg = m.group(1) if m else None
    j = line.find(', !')
    while j >= 0:
        # metadata attachments only (never inside strings in instructions we care about)
        if re.match(r', ![a-zA-Z.]+ !', line[j:]):
            line = line[:j]
            break
        j = line.find(', !', j + 1)
    return line, dbg


def parse_call(p, op):
    # after 'call'/'invoke' keyword (and tail markers)
    while p.peek() in ('fastcc', 'ccc', 'coldcc', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'afn', 'arcp', 'reassoc') or \
            p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG:
        if p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG:
            p.skip_params_attrs()
        else:
            p.next()
    rty = p.type()
    if p.peek() == '(':      # function type: T (args...)
        p.skip_paren()
    if p.peek() == 'asm':
        return rty, ('u',), []
    callee = p.value(PTR)
    p.expect('(')
    args = []
    while not p.eat(')'):
        ty = p.type()
        if ty == ('metadata',):
            # skip metadata operand
            d = 0
            while True:
                t = p.peek()
                if d == 0 and t in (',', ')'):
                    break
                p.next()
                if t in ('(', '{', '['):
                    d += 1
                elif t in (')', '}', ']'):
                    d -= 1
            args.append((ty, ('u',)))
        else:
            p.skip_params_attrs()
            args.append((ty, p.value(ty)))
        p.eat(',')
    return rty, callee, args


def parse_function(f):
    mod = f.mod
    p = P(mod, toks(f.header))
    # find the return type & name: scan to '@name'
    i = 0
    t = p.t
    while t[i] != f.name:
        i += 1
    # params
    p.i = i + 1
    p.expect('(')
    params = []
    n = 0
    while not p.eat(')'):
        if p.peek() == '...':
            p.next()
            continue
        ty = p.type()
        attrs = []
        while p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG:
            a = p.next()
            attrs.append(a)
            if p.peek() == '(' :
                p.skip_paren()
            elif a == 'align':
                p.next()
        if p.peek() and p.peek()[0] == '%':
            nm = p.next()
        else:
            nm = '%' + str(n)
        n += 1
        params.append((ty, nm, attrs))
        p.eat(',')
    f.params = params
    # return type: token(s) before name
    q = P(mod, t)
    q.i = 1
    while True:
        x = q.peek()
        if x in PARAM_ATTRS_ARG or x in PARAM_ATTRS:
            q.skip_params_attrs()
            continue
        if x in ('ptr', 'void', '[', '{', '<') or (x[0] == 'i' and x[1:].isdigit()) or x[0] == '%' or x in ('float', 'double'):
            break
        q.next()
    f.ret = q.type()
    blocks = {}
    order = []
    cur = None

    def newblock(nm):
        b = Block()
        b.name = nm
        b.instrs = []
        b.phis = []
        b.succs = []
        b.preds = []
        blocks[nm] = b
        order.append(nm)
        return b
    lines = f.lines
    i = 0
    nl = len(lines)
    # the entry block label: implicit number = number of params (unnamed) or explicit
    first = True
    while i < nl:
        ln = lines[i]
        i += 1
        if not ln.strip() or ln.lstrip().startswith(';'):
            continue
        if ln[0] not in ' \t}':
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = newblock('%' + m.group(1))
                first = False
                continue
        if first:
            unn = sum(1 for (_, nm, _) in params if nm[1:].isdigit())
            cur = newblock('%' + str(unn))
            first = False
        s = ln.strip()
        if s.startswith('switch') and s.endswith('['):
            while not lines[i].strip().startswith(']'):
                s += ' ' + lines[i].strip()
                i += 1
            s += ' ' + lines[i].strip()
            i += 1
        elif ' invoke ' in ' ' + s:
            s += ' ' + lines[i].strip()
            i += 1
        elif 'landingpad' in s:
            while i < nl and (lines[i].strip().startswith(('cleanup', 'catch', 'filter'))):
                s += ' ' + lines[i].strip()
                i += 1
        s = re.sub(r'\s;[^"]*$', '', s)
        ins = parse_instr(mod, s)
        ins.idx = len(cur.instrs)
        if ins.op == 'phi':
            cur.phis.append(ins)
        else:
            cur.instrs.append(ins)
    f.blocks = blocks
    f.order = order
    f.entry = order[0]


def parse_instr(mod, s):
    s, dbg = split_dbg(s)
    t = toks(s)
    p = P(mod, t)
    res = None
    if len(t) > 1 and t[1] == '=' and t[0][0] == '%':
        res = t[0]
        p.i = 2
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    I = Instr(op, res, dbg=dbg)
    if op in BIN:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        I.ty, I.a, I.b = ty, a, b
    elif op == 'icmp':
        if p.peek() == 'samesign':
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        I.ty, I.a, I.b, I.c = ty, a, b, pred
    elif op in CAST:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect('to')
        t2 = p.type()
        I.ty, I.a, I.b = t2, a, ty
    elif op == 'load':
        I.d = False
        while p.peek() in ('volatile', 'atomic'):
            if p.next() == 'atomic':
                I.d = True
        ty = p.type()
        p.expect(',')
        pty = p.type()
        I.ty, I.a = ty, p.value(pty)
    elif op == 'store':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        pty = p.type()
        I.ty, I.a, I.b = ty, v, p.value(pty)
    elif op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        bty = p.type()
        p.expect(',')
        pty = p.type()
        base = p.value(pty)
        idx = []
        while p.eat(','):
            ity = p.type()
            idx.append((ity, p.value(ity)))
        I.ty, I.a, I.b = bty, base, idx
    elif op == 'alloca':
        p.eat('inalloca')
        ty = p.type()
        cnt = ('k', 1)
        if p.eat(','):
            if p.peek() != 'align':
                cty = p.type()
                cnt = p.value(cty)
        I.ty, I.a = ty, cnt
    elif op == 'br':
        if p.peek() == 'label':
            p.next()
            I.a = None
            I.b = p.next()
        else:
            ty = p.type()
            I.a = p.value(ty)
            p.expect(',')
            p.expect('label')
            I.b = p.next()
            p.expect(',')
            p.expect('label')
            I.c = p.next()
    elif op == 'switch':
        ty = p.type()
        I.ty = ty
        I.a = p.value(ty)
        p.expect(',')
        p.expect('label')
        I.b = p.next()
        p.expect('[')
        cs = []
        while not p.eat(']'):
            ty = p.type()
            v = p.value(ty)
            p.expect(',')
            p.expect('label')
            cs.append((v[1], p.next()))
        I.c = cs
    elif op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b))
            if not p.eat(','):
                break
        I.ty, I.a = ty, inc
    elif op == 'select':
        while p.peek() in FLAGS:
            p.next()
        cty = p.type()
        c = p.value(cty)
        p.expect(',')
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        ty2 = p.type()
        b = p.value(ty2)
        I.ty, I.a, I.b, I.c = ty, c, a, b
    elif op in ('call', 'invoke'):
        rty, callee, args = parse_call(p, op)
        I.ty, I.a, I.b = rty, callee, args
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            I.c = p.next()
            p.expect('unwind')
            p.expect('label')
            I.d = p.next()
    elif op == 'ret':
        ty = p.type()
        I.ty = ty
        I.a = None if ty == VOID else p.value(ty)
    elif op == 'extractvalue':
        ty = p.type()
        v = p.value(ty)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        I.ty, I.a, I.b = ty, v, idx
    elif op == 'insertvalue':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        ety = p.type()
        ev = p.value(ety)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        I.ty, I.a, I.b, I.c = ty, v, ev, idx
        I.d = ety
    elif op == 'freeze':
        ty = p.type()
        I.ty, I.a = ty, p.value(ty)
    elif op in ('unreachable', 'resume', 'landingpad', 'fence'):
        pass
    else:
        I.c = s      # unsupported; error when executed
    return I


def operands(I):
    op = I.op
    if op in BIN or op == 'icmp':
        return [I.a, I.b]
    if op in CAST or op in ('load', 'freeze', 'extractvalue'):
        return [I.a]
    if op == 'store':
        return [I.a, I.b]
    if op == 'getelementptr':
        return [I.a] + [v for _, v in I.b]
    if op == 'br' or op == 'switch' or op == 'ret' or op == 'alloca':
        return [I.a] if I.a else []
    if op == 'select':
        return [I.a, I.b, I.c]
    if op in ('call', 'invoke'):
        return [I.a] + [v for _, v in I.b]
    if op == 'insertvalue':
        return [I.a, I.b]
    return []


def locals_in(v, out):
    if not v:
        return
    if v[0] == 'l':
        out.add(v[1])
    elif v[0] == 'agg':
        for _, x in v[2]:
            locals_in(x, out)


def analyse_cfg(f):
    for b in f.blocks.values():
        t = b.instrs[-1]
        if t.op == 'br':
            s = [t.b] if t.a is None else [t.b, t.c]
        elif t.op == 'switch':
            s = [t.b] + [x for _, x in t.c]
        elif t.op == 'invoke':
            s = [t.c]          # unwind edges are not followed (see DESIGN.md)
        else:
            s = []
        b.succs = list(dict.fromkeys(s))
    # reachable + RPO
    seen = set()
    post = []
    stack = [(f.entry, iter(f.blocks[f.entry].succs))]
    seen.add(f.entry)
    while stack:
        n, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.blocks[s].succs)))
                break
        else:
            post.append(n)
            stack.pop()
    rpo = post[::-1]
    f.rpo = {n: i for i, n in enumerate(rpo)}
    for n in rpo:
        f.blocks[n].preds = []
    for n in rpo:
        for s in f.blocks[n].succs:
            f.blocks[s].preds.append(n)
    # dominators
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for pr in f.blocks[n].preds:
                if pr in idom:
                    if new is None:
                        new = pr
                    else:
                        a, b = pr, new
                        while a != b:
                            while f.rpo[a] > f.rpo[b]:
                                a = idom[a]
                            while f.rpo[b] > f.rpo[a]:
                                b = idom[b]
                        new = a
            if idom.get(n) != new:
                idom[n] = new
                ch = True
    f.idom = idom

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for n in rpo:
        for s in f.blocks[n].succs:
            if dominates(s, n):
                body = loops.setdefault(s, {s})
                st = [n]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(f.blocks[x].preds)
    f.loops = loops
    # an RPO that keeps loop bodies contiguous is not needed: loops are explored on their own
    # liveness of SSA values
    use = {}
    deff = {}
    for n in rpo:
        b = f.blocks[n]
        u, d = set(), set()
        for ph in b.phis:
            d.add(ph.res)
        for I in b.instrs:
            for v in operands(I):
                x = set()
                locals_in(v, x)
                u |= (x - d)
            if I.res:
                d.add(I.res)
        use[n], deff[n] = u, d
    livein = {n: set() for n in rpo}
    ch = True
    while ch:
        ch = False
        for n in reversed(rpo):
            out = set()
            for s in f.blocks[n].succs:
                out |= livein[s]
                for ph in f.blocks[s].phis:
                    for v, pb in ph.a:
                        if pb == n:
                            locals_in(v, out)
            # phi results are defined at block entry
            new = use[n] | (out - deff[n])
            if new != livein[n]:
                livein[n] = new
                ch = True
    # livein of a block does not include its own phis' results; add them for merge keys
    f.live = {n: livein[n] | {ph.res for ph in f.blocks[n].phis} for n in rpo}
    f.inner = {}
    # innermost loop header for each block
    for h, body in sorted(loops.items(), key=lambda kv: -len(kv[1])):
        for b in body:
            f.inner[b] = h


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.md = {}
        self.decls = set()
        self._sz = {}
        self.wchar = 2 if re.search(r"\"wchar_size\", i32 2\b", text) else 4
        self.load(text)

    def load(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'^(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = type (.*)$', ln)
                if m:
                    if m.group(2).strip() == 'opaque':
                        self.types[m.group(1)] = ('opaque',)
                    else:
                        self.types[m.group(1)] = P(self, toks(m.group(2))).type()
            elif c == '@':
                self.parse_global(ln)
            elif ln.startswith('define'):
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)\(', ln)
                name = m.group(1)
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                hdr = ln
                f = Function(self, name, hdr, body)
                m = re.search(r'!dbg (!\d+) \{$', ln)
                f.attrs_sub = m.group(1) if m else None
                self.funcs[name] = f
            elif ln.startswith('declare'):
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)\(', ln)
                self.decls.add(m.group(1))
            elif c == '!':
                m = re.match(r'^(!\d+) = (.*)$', ln)
                if m:
                    self.md[m.group(1)] = m.group(2)
        names = list(self.funcs) + sorted(self.decls) + list(self.aliases) + list(self.globals)
        out = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(x[1:].strip('"') for x in names),
                             capture_output=True, text=True).stdout.split('\n')
        self.dem = {a: b for a, b in zip(names, out)}
        for nm, f in self.funcs.items():
            f.dem = self.dem[nm]

    def parse_global(self, ln):
        m = re.match(r'^(@"(?:[^"\\]|\\.)*"|@[-\w.$]+) = (.*)$', ln)
        name, rest = m.groups()
        t = toks(rest)
        if 'alias' in t[:8]:
            mm = re.search(r', ptr (@"[^"]*"|@[-\w.$]+)\s*$', rest)
            if mm:
                self.aliases[name] = mm.group(1)
            return
        k = None
        for j, x in enumerate(t[:14]):
            if x in ('global', 'constant'):
                k = j
                break
        if k is None:
            return
        ext = 'external' in t[:k]
        p = P(self, t)
        p.i = k + 1
        ty = p.type()
        init = None
        if not ext and p.peek() is not None and p.peek() not in (',',):
            try:
                init = p.value(ty)
            except SyntaxError:
                init = ('u',)
        self.globals[name] = dict(ty=ty, init=init, const=t[k] == 'constant', ext=ext, tls='thread_local' in t[:k],
                                  linkage=t[:k], line=rest)

    # ---- layout
    def size_align(self, ty):
        r = self._sz.get(ty)
        if r:
            return r
        k = ty[0]
        if k == 'i':
            n = ty[1]
            b = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            r = (b, b)
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'f':
            r = (ty[1], ty[1])
        elif k == 'arr':
            s, a = self.size_align(ty[2])
            r = (s * ty[1], a)
        elif k == 'vec':
            s, a = self.size_align(ty[2])
            r = (s * ty[1], s * ty[1])
        elif k == 'st':
            off = 0
            al = 1
            for e in ty[1]:
                s, a = self.size_align(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        elif k == 'named':
            r = self.size_align(self.types[ty[1]])
        else:
            r = (0, 1)
        self._sz[ty] = r
        return r

    def size(self, ty):
        return self.size_align(ty)[0]

    def field_off(self, ty, i):
        if ty[0] == 'named':
            ty = self.types[ty[1]]
        off = 0
        for j, e in enumerate(ty[1]):
            s, a = self.size_align(e)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IndexError(i)

    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.types[ty[1]]
        return ty

    # ---- debug locations
    def loc(self, dbg):
        """-> (file, line) or None"""
        s = self.md.get(dbg)
        if not s:
            return None
        m = re.search(r'line: (\d+)', s)
        line = int(m.group(1)) if m else 0
        sc = re.search(r'scope: (!\d+)', s)
        fn = self.scope_file(sc.group(1)) if sc else '?'
        return fn, line

    def scope_file(self, sc):
        for _ in range(30):
            s = self.md.get(sc, '')
            m = re.search(r'file: (!\d+)', s)
            if m:
                fs = self.md.get(m.group(1), '')
                mm = re.search(r'filename: "([^"]*)"', fs)
                return mm.group(1) if mm else '?'
            m = re.search(r'scope: (!\d+)', s)
            if not m:
                return '?'
            sc = m.group(1)
        return '?'
