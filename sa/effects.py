"""Effect analysis over the call graph: which functions write to objects that outlive the call, or through their const parameters."""
import re

REG = re.compile(r'%(?:"[^"]*"|[\w.$-]+)')
GLB = re.compile(r'@(?:"[^"]*"|[\w.$-]+)')
RES = re.compile(r'^\s*(%(?:"[^"]*"|[\w.$-]+)) = (?:tail |musttail |notail )?(\w+)')
DBG = re.compile(r', !\w+ !\d+|, !dbg.*$')

# const-correct library calls never write through these; everything else that is not defined here is listed
MUTATE = {'append', 'assign', 'operator=', 'operator+=', 'push_back', 'emplace_back', 'pop_back', 'clear', 'resize', 'insert', 'erase', 'swap',
          'reserve', 'replace', 'shrink_to_fit', '_M_append', '_M_assign', '_M_replace', '_M_replace_aux', '_M_erase', '_M_set_length',
          '_M_mutate', 'emplace', 'operator<<', 'fetch_add', 'store', 'exchange'}
CALLS = {'@memcpy': 0, '@memmove': 0, '@memset': 0, '@strcpy': 0, '@strcat': 0, '@strncpy': 0, '@wcscpy': 0}
STATEFUL = {'@setlocale', '@strtok', '@srand', '@rand', '@putenv', '@setenv', '@unsetenv', '@mbtowc', '@mbrtowc', '@wctomb', '@wcrtomb', '@mbstowcs',
            '@wcstombs', '@setrlimit', '@signal', '@tolower', '@towlower'}


def split_args(s):
    out, depth, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                depth += 1
            elif ch in ')]}>':
                if depth == 0:
                    break
                depth -= 1
            if ch == ',' and depth == 0:
                out.append(cur)
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur)
    return out


def callee(line):
    """-> (name, [argument texts]) of a call or invoke"""
    m = re.search(r'\b(?:call|invoke)\b', line)
    if not m:
        return None
    rest = line[m.end():]
    i = 0
    # the callee is the first @name or %reg directly followed by '('
    for g in re.finditer(r'(@(?:"[^"]*"|[\w.$-]+)|%(?:"[^"]*"|[\w.$-]+))\(', rest):
        return g.group(1), split_args(rest[g.end():])
    return None


class Effects:
    def __init__(self, m):
        self.m = m
        self.memo = {}
        self.vars = {g for g, d in m.globals.items() if not d['const'] and not g.startswith('@_ZGV') and not g.startswith('@llvm.')
                     and not g.startswith('@_ZTV') and g not in ('@__dso_handle', '@_ZStL8__ioinit')}

    def reach(self, roots):
        seen, todo, edges = set(), list(roots), {}
        while todo:
            f = todo.pop()
            if f in seen or f not in self.m.funcs:
                continue
            seen.add(f)
            for ln in self.m.funcs[f].lines:
                for g in GLB.findall(DBG.sub('', ln)):
                    if g in self.m.funcs and g not in seen:
                        edges.setdefault(g, f)
                        todo.append(g)
        return seen, edges

    def loc(self, f, ln):
        g = re.search(r'!dbg (!\d+)', ln)
        try:
            return self.m.loc(g.group(1)) if g else None
        except Exception:
            return None

    def writes(self, f, start):
        """lines of f that write through the given registers or globals: [(line, what)]"""
        fn = self.m.funcs[f]
        lines = [(ln, DBG.sub('', ln)) for ln in fn.lines]
        taint = set(start)
        for _ in range(8):
            n = len(taint)
            for raw, ln in lines:
                r = RES.match(ln)
                if not r:
                    continue
                res, op = r.groups()
                body = ln.split('=', 1)[1]
                if op in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze'):
                    base = [x for x in REG.findall(body) + GLB.findall(body) if x in taint]
                    if base:
                        # only the pointer operand counts
                        ops = split_args(body)
                        if any(x in taint for x in (REG.findall(ops[1]) + GLB.findall(ops[1]) if op == 'getelementptr' and len(ops) > 1 else base)):
                            taint.add(res)
                elif op in ('phi', 'select'):
                    if ' ptr' in body and any(x in taint for x in REG.findall(body) + GLB.findall(body)):
                        taint.add(res)
                elif op in ('call', 'invoke'):
                    c = callee(ln)
                    if c and c[0] == '@llvm.threadlocal.address.p0' and any(x in taint for x in GLB.findall(c[1][0])):
                        taint.add(res)
            if len(taint) == n:
                break
        out = []
        guards = set()
        for raw, ln in lines:
            c = callee(ln) if (' call ' in ln or 'invoke ' in ln) else None
            if c and c[0] == '@__cxa_guard_acquire':
                guards |= set(GLB.findall(c[1][0]))
            if c and c[0] == '@__cxa_guard_release':
                guards -= set(GLB.findall(c[1][0]))
            s = ln.strip()
            hit = None
            if s.startswith('store '):
                ops = split_args(s[6:])
                tgt = ops[1] if len(ops) > 1 else ''
                t = [x for x in REG.findall(tgt) + GLB.findall(tgt) if x in taint]
                if t:
                    hit = 'stores to it'
            elif re.search(r'\b(atomicrmw|cmpxchg)\b', s):
                if any(x in taint for x in REG.findall(s) + GLB.findall(s)):
                    hit = 'modifies it atomically'
            elif c:
                for k, a in enumerate(c[1]):
                    t = [x for x in REG.findall(a) + GLB.findall(a) if x in taint]
                    if not t or not a.strip().startswith('ptr'):
                        continue
                    if self.call_writes(c[0], k):
                        hit = 'passes it to %s, which modifies it' % self.m.dem.get(c[0], c[0])
            if hit:
                out.append((raw, hit, set(guards)))
        return out

    def call_writes(self, g, k):
        if g in self.m.funcs:
            key = (g, k)
            if key not in self.memo:
                self.memo[key] = False
                ps = self.params(g)
                if k < len(ps):
                    self.memo[key] = bool(self.writes(g, {ps[k]}))
            return self.memo[key]
        if g in CALLS:
            return CALLS[g] == k
        m = re.match(r'@llvm\.(memcpy|memmove|memset)', g)
        if m:
            return k == 0
        d = self.m.dem.get(g, g)
        if k == 0 and 'std::' in d and not d.rstrip().endswith('const'):
            nm = re.sub(r'<[^()]*>', '', d.split('(')[0])
            nm = nm.split('::')[-1].strip()
            return nm in MUTATE or nm.startswith('operator=')
        return False

    def params(self, g):
        h = self.m.funcs[g].header
        i = h.index(g) + len(g)
        out = []
        for a in split_args(h[i + 1:]):
            r = REG.findall(a)
            out.append(r[-1] if r else None)
        return out

    def shared_state(self, roots):
        """-> (violations, reachable functions, variables)"""
        seen, edges = self.reach(roots)
        bad = []
        for f in sorted(seen):
            text = '\n'.join(DBG.sub('', x) for x in self.m.funcs[f].lines)
            used = set(GLB.findall(text))
            for g in sorted(used & self.vars):
                for raw, hit, guards in self.writes(f, {g}):
                    if '@_ZGV' + g[3:] in guards:
                        continue
                    bad.append((f, g, hit, raw))
            for s in sorted(used & STATEFUL):
                bad.append((f, s, 'calls it (it keeps or depends on process-wide state)', ''))
        return bad, seen, edges

    def path(self, edges, f):
        p = [f]
        while f in edges and len(p) < 40:
            f = edges[f]
            p.append(f)
        return list(reversed(p))

    def const_params(self, roots):
        """writes through parameters declared const, in the functions the roots call and everything below them"""
        bad = []
        n = 0
        seen, edges = self.reach(roots)
        for g in sorted(seen):
            d = self.m.dem.get(g, g)
            if 'ansak::' not in d or g in roots:
                continue
            ps = self.params(g)
            sig = signature(d)
            if sig is None:
                continue
            types, method, const = sig
            sret = 1 if 'sret' in self.m.funcs[g].header else 0
            off = sret + (1 if method else 0)
            if len(ps) == sret + len(types) + 1 and not method:
                off, method = sret + 1, True
            todo = [(off + i, t) for i, t in enumerate(types) if re.search(r'\bconst\s*[&*]$', t)]
            if const:
                todo.append((sret, 'this (const method)'))
            for k, t in todo:
                if k < len(ps) and ps[k]:
                    n += 1
                    for raw, hit, _ in self.writes(g, {ps[k]}):
                        bad.append((g, t, hit, raw))
                        break
        return bad, n


def signature(d):
    """parameter types of a demangled name -> (types, is method?, const?)"""
    const = bool(re.search(r'\)\s*const$', d))
    i = d.rfind(')')
    if i < 0:
        return None
    depth = 0
    j = i
    while j >= 0:
        if d[j] == ')':
            depth += 1
        elif d[j] == '(':
            depth -= 1
            if depth == 0:
                break
        j -= 1
    types = [t.strip() for t in split_args(d[j + 1:i])]
    return types, const, const
