"""Parser for the textual LLVM 18 IR that clang emits from /repo's current sources.

Only what the analyses need: functions, blocks, instructions, types with
x86-64 layout, constant global initialisers and debug locations.
"""
import re

TOK = re.compile(r'''
   \s+ | (?P<str>c"(?:[^"\\]|\\.)*") | (?P<id>[%@](?:"[^"]*"|[-\w.$]+)) | (?P<md>![-\w.$]*|!"[^"]*")
 | (?P<q>"[^"]*") | (?P<num>-?\d+(?:\.\d+)?(?:e[+-]?\d+)?) | (?P<w>[A-Za-z_][\w.]*) | (?P<hash>\#\d+) | (?P<p>\.\.\.|[(){}\[\]<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        if m.lastgroup:
            out.append(m.group(m.lastgroup))
    return out


class IRError(Exception):
    pass


class P:
    """token cursor"""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise IRError('expected %r got %r in %r' % (x, self.peek(), ' '.join(self.t)[:300]))


PARAM_ATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned',
              'signext', 'zeroext', 'inreg', 'dead_on_unwind', 'writable', 'immarg', 'nofree', 'nest', 'swiftself',
              'allocptr', 'allocalign', 'noext', 'noinline'}
PARAM_ATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca',
                  'elementtype', 'range', 'memory', 'captures'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'fastcc', 'ccc', 'coldcc'}


def skip_attrs(p):
    while True:
        t = p.peek()
        if t in PARAM_ATTR:
            p.next()
        elif t in PARAM_ATTR_ARG:
            p.next()
            if p.peek() == '(':
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            else:
                p.next()
        elif t is not None and t[0] == '"':
            p.next()
            if p.eat('='):
                p.next()
        elif t is not None and t[0] == '#':
            p.next()
        else:
            return


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> (type, init-constant or None, is_const)
        self.funcs = {}
        self.decls = {}        # name -> return type
        self.aliases = {}
        self.md = {}
        self._mdcache = {}
        self._parse(text)

    # ---- types
    def ty(self, p):
        t = p.next()
        if t == 'ptr':
            r = ('ptr',)
            if p.peek() == 'addrspace':
                p.next(); p.expect('('); p.next(); p.expect(')')
        elif t == 'void':
            r = ('void',)
        elif t in ('metadata', 'label', 'token', 'float', 'double', 'half', 'x86_fp80', 'fp128'):
            r = (t,)
        elif t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t[0] == '%':
            r = ('n', t)
        elif t == '{':
            el = []
            if not p.eat('}'):
                while True:
                    el.append(self.ty(p))
                    if not p.eat(','):
                        break
                p.expect('}')
            r = ('s', tuple(el), False)
        elif t == '<':
            if p.peek() == '{':
                p.next()
                el = []
                if not p.eat('}'):
                    while True:
                        el.append(self.ty(p))
                        if not p.eat(','):
                            break
                    p.expect('}')
                p.expect('>')
                r = ('s', tuple(el), True)
            else:
                n = int(p.next()); p.expect('x'); e = self.ty(p); p.expect('>')
                r = ('v', n, e)
        elif t == '[':
            n = int(p.next())
            p.expect('x')
            e = self.ty(p)
            p.expect(']')
            r = ('a', n, e)
        elif t == 'opaque':
            r = ('s', (), False)
        else:
            raise IRError('type? %r in %s' % (t, ' '.join(p.t)[:200]))
        # function type
        if p.peek() == '(' and r[0] != 'label':
            # e.g. "i32 (ptr, ...)" used in calls to variadics
            save = p.i
            p.next()
            ok = True
            el = []
            try:
                if not p.eat(')'):
                    while True:
                        if p.eat('...'):
                            pass
                        else:
                            el.append(self.ty(p))
                        if not p.eat(','):
                            break
                    p.expect(')')
            except IRError:
                ok = False
            if ok and p.peek() and p.peek()[0] in '@%':
                return ('fn', r, tuple(el))
            p.i = save
        return r

    def resolve(self, t):
        while t[0] == 'n':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return a, min(a, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'n':
            return self.size_align(self.types[t[1]])
        if k == 'a':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 's':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return off, al
        if k == 'double':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'x86_fp80':
            return 16, 16
        if k == 'v':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        raise IRError('size of %r' % (t,))

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IRError('field')

    # ---- constants / operands.  operand: ('id',name) ('g',name) ('int',w,n) ('null',) ('undef',) ('zero',)
    #      ('str',bytes) ('agg',[...]) ('gepc',type,base,idx) ('cast',op,operand,type)
    def operand(self, p, t):
        x = p.next()
        if x[0] == '%':
            return ('id', x)
        if x[0] == '@':
            return ('g', x)
        if x[0] == '-' or x[0].isdigit():
            if t[0] == 'i':
                return ('int', t[1], int(x) & ((1 << t[1]) - 1))
            return ('undef',)
        if x == 'true':
            return ('int', 1, 1)
        if x == 'false':
            return ('int', 1, 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero', t)
        if x[0] == 'c' and x[1] == '"':
            return ('str', unesc(x[2:-1]))
        if x in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and p.peek() == '{':
                p.next()
                el = self._agg(p, '}')
                p.expect('>')
            else:
                el = self._agg(p, close)
            return ('agg', el)
        if x == 'getelementptr':
            while p.peek() in ('inbounds', 'inrange'):
                p.next()
            p.expect('(')
            bt = self.ty(p)
            p.expect(',')
            self.ty(p)
            base = self.operand(p, ('ptr',))
            idx = []
            while p.eat(','):
                p.eat('inrange')
                it = self.ty(p)
                idx.append(self.operand(p, it))
            p.expect(')')
            return ('gepc', bt, base, idx)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            p.expect('(')
            st = self.ty(p)
            o = self.operand(p, st)
            p.expect('to')
            dt = self.ty(p)
            p.expect(')')
            return ('cast', x, o, dt)
        if x in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'icmp', 'select', 'shl', 'lshr'):
            d = 0
            while True:
                y = p.next()
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
                    if d == 0:
                        break
            return ('undef',)
        if x == 'dso_local_equivalent' or x == 'no_cfi':
            return self.operand(p, t)
        if x[0] == '!':
            return ('md', x)
        raise IRError('operand? %r in %s' % (x, ' '.join(p.t)[:200]))

    def _agg(self, p, close):
        el = []
        if p.eat(close):
            return el
        while True:
            t = self.ty(p)
            el.append((t, self.operand(p, t)))
            if not p.eat(','):
                break
        p.expect(close)
        return el

    # ---- module
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        glob = []
        while i < n:
            ln = lines[i]
            if not ln or ln[0] == ';':
                i += 1
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)', ln)
                if m:
                    self.types[m.group(1)] = self.ty(P(tokenize(m.group(2))))
            elif c == '@':
                glob.append(ln)
            elif c == '!':
                m = re.match(r'(!\d+) = (.*)', ln)
                if m:
                    self.md[m.group(1)] = m.group(2)
            elif ln.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', ln)
                self.decls[m.group(1)] = ln
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Function(self, ln, lines[i + 1:j])
                self.funcs[f.name] = f
                i = j
            i += 1
        for ln in glob:
            self._global(ln)

    def _global(self, ln):
        m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)', ln)
        name, rest = m.group(1), m.group(2)
        ma = re.search(r'\balias\b.*, ptr (@(?:"[^"]*"|[-\w.$]+))\s*$', rest)
        if ma:
            self.aliases[name] = ('g', ma.group(1))
            return
        p = P(tokenize(rest))
        is_const = None
        external = False
        while True:
            t = p.next()
            if t == 'external':
                external = True
            if t in ('constant', 'global'):
                is_const = (t == 'constant')
                break
            if t in ('alias', 'ifunc'):
                try:
                    ty = self.ty(p)
                    p.expect(',')
                    self.ty(p)
                    self.aliases[name] = self.operand(p, ('ptr',))
                except IRError:
                    pass
                return
            if t == 'thread_local' and p.peek() == '(':
                p.next(); p.next(); p.next()
            if p.peek() is None:
                return
        ty = self.ty(p)
        init = None
        if not external and p.peek() not in (None, ','):
            try:
                init = self.operand(p, ty)
            except IRError:
                init = None
        self.globals[name] = (ty, init, is_const)

    # constant flattening: (offset, size, operand) leaves
    def leaves(self, ty, init, off=0):
        ty = self.resolve(ty)
        k = init[0]
        if k == 'zero' or k == 'undef':
            yield off, self.sizeof(ty), ('zero', ty)
            return
        if k == 'str':
            yield off, len(init[1]), init
            return
        if k == 'agg':
            if ty[0] in ('a', 'v'):
                es = self.sizeof(ty[2])
                for j, (t, o) in enumerate(init[1]):
                    yield from self.leaves(t, o, off + j * es)
            else:
                for j, (t, o) in enumerate(init[1]):
                    fo, ft = self.field_off(ty, j)
                    yield from self.leaves(t, o, off + fo)
            return
        yield off, self.sizeof(ty), init

    # ---- debug locations
    def loc(self, mdid):
        """'!123' -> list of (file, line, function) innermost first"""
        if mdid is None:
            return []
        if mdid in self._mdcache:
            return self._mdcache[mdid]
        out = []
        cur = mdid
        while cur:
            s = self.md.get(cur, '')
            m = re.search(r'DILocation\(line: (\d+)', s)
            if not m:
                break
            line = int(m.group(1))
            sc = re.search(r'scope: (!\d+)', s)
            f, fn = self._scope(sc.group(1)) if sc else ('?', '?')
            out.append((f, line, fn))
            ia = re.search(r'inlinedAt: (!\d+)', s)
            cur = ia.group(1) if ia else None
        self._mdcache[mdid] = out
        return out

    def _scope(self, sid):
        file = None
        seen = 0
        while sid and seen < 50:
            seen += 1
            s = self.md.get(sid, '')
            m = re.search(r'file: (!\d+)', s)
            if m and file is None:
                fm = re.search(r'filename: "([^"]*)"', self.md.get(m.group(1), ''))
                file = fm.group(1) if fm else '?'
            if 'DISubprogram' in s:
                nm = re.search(r'name: "([^"]*)"', s)
                return file or '?', nm.group(1) if nm else '?'
            m = re.search(r'scope: (!\d+)', s)
            sid = m.group(1) if m else None
        return file or '?', '?'


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'a', 'ty', 'dbg', 'line', 'uses')

    def __repr__(self):
        return '%s = %s %r' % (self.res, self.op, self.a)


class Block:
    __slots__ = ('name', 'ins', 'phis', 'succ', 'preds', 'idx', 'live_in', 'rpo', 'is_head')


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}


class Function:
    def __init__(self, mod, head, body):
        self.mod = mod
        m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', head)
        self.name = m.group(1)
        self.head = head
        self._body = body
        self._done = False
        # params
        p = P(tokenize(head[m.end() - 1:]))
        p.expect('(')
        self.params = []
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    break
                t = mod.ty(p)
                skip_attrs(p)
                nm = p.next()
                self.params.append((nm, t))
                if not p.eat(','):
                    break
        d = re.search(r'!dbg (!\d+)', head)
        self.dbg = d.group(1) if d else None

    def parse(self):
        if self._done:
            return self
        self._done = True
        mod = self.mod
        blocks = []
        cur = None
        nparam = len(self.params)
        body = self._body
        # merge multi-line constructs (switch, landingpad clauses)
        lines = []
        i = 0
        while i < len(body):
            ln = body[i]
            if ' switch ' in ln[:10] or ln.strip().startswith('switch '):
                while not ln.rstrip().endswith(']') and ']' not in ln.split('[', 1)[-1]:
                    i += 1
                    ln += ' ' + body[i]
            elif ' = landingpad ' in ln:
                while i + 1 < len(body) and re.match(r'\s+(cleanup|catch|filter)\b', body[i + 1]):
                    i += 1
                    ln += ' ' + body[i]
            elif re.search(r'(^|= )\s*invoke ', ln) and ' unwind label ' not in ln:
                i += 1
                ln += ' ' + body[i]
            lines.append(ln)
            i += 1
        first_label = None
        for ln in lines:
            if not ln.strip():
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            if m:
                cur = Block()
                cur.name = '%' + m.group(1)
                cur.ins = []
                cur.phis = []
                blocks.append(cur)
                continue
            if cur is None:
                cur = Block()
                # unnamed entry block takes number after params
                k = 0
                unnamed = [nm for nm, _ in self.params if nm[1:].isdigit()]
                cur.name = '%' + str(len(unnamed))
                cur.ins = []
                cur.phis = []
                blocks.append(cur)
            ins = self.instr(ln)
            if ins is None:
                continue
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        self.blocks = {}
        for k, b in enumerate(blocks):
            b.idx = k
            b.preds = []
            self.blocks[b.name] = b
        self.entry = blocks[0]
        for b in blocks:
            b.succ = succs(b.ins[-1])
        for b in blocks:
            for s in b.succ:
                self.blocks[s].preds.append(b.name)
        self._rpo()
        self._liveness()
        return self

    def _rpo(self):
        seen = set()
        order = []
        heads = set()
        onstack = set()
        stack = [(self.entry.name, iter(self.entry.succ))]
        seen.add(self.entry.name)
        onstack.add(self.entry.name)
        while stack:
            nm, it = stack[-1]
            for s in it:
                if s in onstack:
                    heads.add(s)
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                order.append(nm)
                onstack.discard(nm)
                stack.pop()
        order.reverse()
        for k, nm in enumerate(order):
            self.blocks[nm].rpo = k
            self.blocks[nm].is_head = nm in heads
        for b in self.blocks.values():
            if b.name not in seen:
                b.rpo = 1 << 20
                b.is_head = False
        self.heads = heads

    def _liveness(self):
        use = {}
        defs = {}
        for b in self.blocks.values():
            u = set()
            d = set(i.res for i in b.phis)
            for ins in b.ins:
                for x in ins.uses:
                    if x not in d:
                        u.add(x)
                if ins.res:
                    d.add(ins.res)
            use[b.name] = u
            defs[b.name] = d
            b.live_in = set()
        changed = True
        order = sorted(self.blocks.values(), key=lambda b: -b.rpo)
        phiuse = {}
        for b in self.blocks.values():
            for ph in b.phis:
                for v, lab in ph.a:
                    if v[0] == 'id':
                        phiuse.setdefault((lab, b.name), set()).add(v[1])
        while changed:
            changed = False
            for b in order:
                out = set()
                for s in b.succ:
                    out |= self.blocks[s].live_in
                    out |= phiuse.get((b.name, s), set())
                li = use[b.name] | (out - defs[b.name])
                if li != b.live_in:
                    b.live_in = li
                    changed = True

    def mem_liveness(self):
        """per block: the (alloca, offset) bytes that may still be read; allocas that escape are always live"""
        mod = self.mod
        root = {}
        size = {}
        for b in self.blocks.values():
            for I in b.ins:
                if I.op == 'alloca':
                    root[I.res] = (I.res, 0)
                    size[I.res] = mod.sizeof(I.ty)
        changed = True
        while changed:
            changed = False
            for b in self.blocks.values():
                for I in b.ins:
                    if I.op == 'getelementptr' and I.res not in root and I.a[0][0] == 'id' and I.a[0][1] in root:
                        r, o = root[I.a[0][1]]
                        for x in I.a[1]:
                            if x[0] == 'c':
                                o = None if o is None else o + x[1]
                            else:
                                o = None
                        root[I.res] = (r, o)
                        changed = True
        esc = set()

        def uses_of(I):
            """-> list of ('r'|'w'|'e', alloca, off, size)"""
            out = []
            if I.op == 'load':
                if I.a[0] == 'id' and I.a[1] in root:
                    r, o = root[I.a[1]]
                    out.append(('r', r, o, mod.sizeof(I.ty)))
                return out
            if I.op == 'store':
                v, p = I.a
                for u in ids([v]):
                    if u in root:
                        out.append(('e', root[u][0], None, 0))
                if p[0] == 'id' and p[1] in root:
                    r, o = root[p[1]]
                    out.append(('w', r, o, mod.sizeof(I.ty)))
                return out
            if I.op in ('getelementptr', 'alloca'):
                return out
            if I.op in ('call', 'invoke'):
                cal = I.a[0]
                nm = cal[1] if cal[0] == 'g' else ''
                if nm.startswith('@llvm.lifetime'):
                    for t, o in I.a[1]:
                        if o[0] == 'id' and o[1] in root:
                            out.append(('w', root[o[1]][0], 0, size[root[o[1]][0]]))
                    return out
                if nm.startswith(('@llvm.memcpy', '@llvm.memmove', '@llvm.memset')):
                    n = I.a[1][2][1]
                    n = n[2] if n[0] == 'int' else None
                    src = I.a[1][1][1]
                    if src[0] == 'id' and src[1] in root:
                        r, o = root[src[1]]
                        out.append(('r', r, o if n is not None else None, n or 0))
                    dst = I.a[1][0][1]
                    if dst[0] == 'id' and dst[1] in root and n is not None and root[dst[1]][1] is not None:
                        r, o = root[dst[1]]
                        out.append(('w', r, o, n))
                    return out
                g = mod.funcs.get(nm)
                for k, (t, o) in enumerate(I.a[1]):
                    if o[0] == 'id' and o[1] in root:
                        if g is not None and g.nocapture(k):
                            out.append(('r', root[o[1]][0], None, 0))
                        else:
                            out.append(('e', root[o[1]][0], None, 0))
                return out
            for u in I.uses:
                if u in root:
                    if I.op == 'icmp':
                        continue
                    out.append(('e', root[u][0], None, 0))
            return out
        per = {}
        for b in self.blocks.values():
            l = []
            for I in b.ins:
                u = uses_of(I)
                l += u
                for x in u:
                    if x[0] == 'e':
                        esc.add(x[1])
            for ph in b.phis:
                for v, _ in ph.a:
                    if v[0] == 'id' and v[1] in root:
                        esc.add(root[v[1]][0])
            per[b.name] = l
        tracked = [r for r in size if r not in esc]
        base = {}
        tot = 0
        for r in tracked:
            base[r] = tot
            tot += size[r]

        def rng(r, o, n):
            if o is None:
                return ((1 << size[r]) - 1) << base[r]
            if o < 0 or o + n > size[r]:
                return ((1 << size[r]) - 1) << base[r]
            return ((1 << n) - 1) << (base[r] + o)
        gen, kill = {}, {}
        for nm, l in per.items():
            g = k = 0
            for x in reversed(l):
                if x[1] not in base:
                    continue
                m = rng(x[1], x[2], x[3])
                if x[0] == 'r':
                    g |= m
                    k &= ~m
                elif x[0] == 'w' and x[2] is not None:
                    g &= ~m
                    k |= m
            gen[nm], kill[nm] = g, k
        live = {nm: 0 for nm in per}
        order = sorted(self.blocks.values(), key=lambda b: -b.rpo)
        changed = True
        while changed:
            changed = False
            for b in order:
                o = 0
                for s in b.succ:
                    o |= live[s]
                n = gen[b.name] | (o & ~kill[b.name])
                if n != live[b.name]:
                    live[b.name] = n
                    changed = True
        self.mlive = live
        self.mbase = base
        self.msize = size

    def nocapture(self, k):
        if not hasattr(self, '_nc'):
            m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', self.head)
            t = self.head[m.end():]
            d = 0
            parts = []
            cur = ''
            for ch in t:
                if ch in '([{<':
                    d += 1
                elif ch in ')]}>':
                    d -= 1
                    if d < 0:
                        break
                if ch == ',' and d == 0:
                    parts.append(cur)
                    cur = ''
                else:
                    cur += ch
            parts.append(cur)
            self._nc = ['nocapture' in p.split() for p in parts]
        return k < len(self._nc) and self._nc[k]

    def instr(self, ln):
        mod = self.mod
        dm = re.search(r', !dbg (!\d+)', ln)
        dbg = dm.group(1) if dm else None
        s = re.sub(r'(, ![-\w.]+ !\d+)+\s*$', '', ln)
        s = s.split(' ; ')[0] if ' ; preds' in s else s
        p = P(tokenize(s))
        res = None
        if p.peek(1) == '=':
            res = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        I = Instr()
        I.res = res
        I.dbg = dbg
        I.line = ln
        I.ty = None
        I.op = op
        if op == 'load':
            p.eat('volatile')
            I.ty = mod.ty(p)
            p.expect(',')
            mod.ty(p)
            I.a = mod.operand(p, ('ptr',))
            I.uses = ids([I.a])
        elif op == 'store':
            p.eat('volatile')
            t = mod.ty(p)
            v = mod.operand(p, t)
            p.expect(',')
            mod.ty(p)
            a = mod.operand(p, ('ptr',))
            I.ty = t
            I.a = (v, a)
            I.uses = ids([v, a])
        elif op == 'alloca':
            I.ty = mod.ty(p)
            I.a = None
            I.uses = ()
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = mod.ty(p)
            p.expect(',')
            mod.ty(p)
            base = mod.operand(p, ('ptr',))
            idx = []
            while p.eat(','):
                it = mod.ty(p)
                idx.append((it, mod.operand(p, it)))
            I.ty = ('ptr',)
            I.a = (base, self._gep(bt, idx))
            I.uses = ids([base] + [o for _, o in idx])
        elif op == 'icmp':
            pred = p.next()
            t = mod.ty(p)
            a = mod.operand(p, t)
            p.expect(',')
            b = mod.operand(p, t)
            I.ty = t
            I.a = (pred, a, b)
            I.uses = ids([a, b])
        elif op in BIN:
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            t = mod.ty(p)
            a = mod.operand(p, t)
            p.expect(',')
            b = mod.operand(p, t)
            I.ty = t
            I.a = (a, b)
            I.uses = ids([a, b])
        elif op in CASTS:
            while p.peek() == 'nneg':
                p.next()
            st = mod.ty(p)
            a = mod.operand(p, st)
            p.expect('to')
            I.ty = mod.ty(p)
            I.a = (a, st)
            I.uses = ids([a])
        elif op == 'select':
            t = mod.ty(p)
            c = mod.operand(p, t)
            p.expect(',')
            t1 = mod.ty(p)
            a = mod.operand(p, t1)
            p.expect(',')
            t2 = mod.ty(p)
            b = mod.operand(p, t2)
            I.ty = t1
            I.a = (c, a, b)
            I.uses = ids([c, a, b])
        elif op == 'phi':
            t = mod.ty(p)
            I.ty = t
            inc = []
            while True:
                p.expect('[')
                v = mod.operand(p, t)
                p.expect(',')
                lab = p.next()
                p.expect(']')
                inc.append((v, lab))
                if not p.eat(','):
                    break
            I.a = inc
            I.uses = ()
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                I.a = ('u', p.next())
                I.uses = ()
            else:
                mod.ty(p)
                c = mod.operand(p, ('i', 1))
                p.expect(','); p.expect('label'); x = p.next()
                p.expect(','); p.expect('label'); y = p.next()
                I.a = ('c', c, x, y)
                I.uses = ids([c])
        elif op == 'switch':
            t = mod.ty(p)
            v = mod.operand(p, t)
            p.expect(','); p.expect('label'); d = p.next()
            p.expect('[')
            cases = []
            while not p.eat(']'):
                ct = mod.ty(p)
                cv = mod.operand(p, ct)
                p.expect(','); p.expect('label')
                cases.append((cv[2], p.next()))
            I.ty = t
            I.a = (v, d, cases)
            I.uses = ids([v])
        elif op == 'ret':
            t = mod.ty(p)
            I.ty = t
            I.a = None if t == ('void',) else mod.operand(p, t)
            I.uses = ids([I.a]) if I.a else ()
        elif op == 'unreachable':
            I.a = None
            I.uses = ()
        elif op == 'resume':
            t = mod.ty(p)
            I.a = mod.operand(p, t)
            I.uses = ids([I.a])
        elif op == 'landingpad':
            I.ty = mod.ty(p)
            cl = []
            while p.peek() in ('cleanup', 'catch', 'filter'):
                k = p.next()
                if k == 'cleanup':
                    cl.append(('cleanup',))
                else:
                    t = mod.ty(p)
                    cl.append((k, mod.operand(p, t)))
            I.a = cl
            I.uses = ()
        elif op == 'extractvalue':
            t = mod.ty(p)
            v = mod.operand(p, t)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            I.a = (v, idx)
            I.uses = ids([v])
        elif op == 'insertvalue':
            t = mod.ty(p)
            v = mod.operand(p, t)
            p.expect(',')
            t2 = mod.ty(p)
            w = mod.operand(p, t2)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            I.ty = t
            I.a = (v, w, idx)
            I.uses = ids([v, w])
        elif op == 'freeze':
            t = mod.ty(p)
            I.a = mod.operand(p, t)
            I.uses = ids([I.a])
        elif op in ('call', 'invoke'):
            while p.peek() in ('fast', 'nnan') or p.peek() in LINKAGE or p.peek() in PARAM_ATTR or p.peek() in PARAM_ATTR_ARG:
                if p.peek() in LINKAGE:
                    p.next()
                else:
                    skip_attrs(p)
            t = mod.ty(p)
            if t[0] == 'fn':
                rt = t[1]
            else:
                rt = t
            callee = mod.operand(p, ('ptr',))
            if callee == ('g', '@llvm.dbg.value') or callee == ('g', '@llvm.dbg.declare') or \
               callee[0] == 'g' and callee[1].startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.experimental.noalias')):
                if not callee[1].startswith('@llvm.lifetime'):
                    return None
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    at = mod.ty(p)
                    skip_attrs(p)
                    if at == ('metadata',):
                        p.next()
                        args.append((at, ('undef',)))
                    else:
                        args.append((at, mod.operand(p, at)))
                    if not p.eat(','):
                        break
                p.expect(')')
            nb = ub = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.expect('to'); p.expect('label'); nb = p.next()
                p.expect('unwind'); p.expect('label'); ub = p.next()
            I.ty = rt
            I.a = (callee, args, nb, ub)
            I.uses = ids([callee] + [o for _, o in args])
        elif op in ('fence',):
            return None
        else:
            raise IRError('instruction? ' + ln)
        return I

    def _gep(self, bt, idx):
        """-> list of ('c', const) / ('m', scale, operand, width)"""
        mod = self.mod
        out = []
        t = bt
        c = 0
        for k, (it, o) in enumerate(idx):
            if k == 0:
                sc = mod.sizeof(t)
            else:
                t = mod.resolve(t)
                if t[0] == 's':
                    fo, t = mod.field_off(t, o[2])
                    c += fo
                    continue
                t = t[2]
                sc = mod.sizeof(t)
            if o[0] == 'int':
                v = o[2]
                if v >> (o[1] - 1):
                    v -= 1 << o[1]
                c += sc * v
            else:
                out.append(('m', sc, o, it[1]))
        out.append(('c', c))
        return out


def ids(ops):
    r = []
    for o in ops:
        _ids(o, r)
    return tuple(r)


def _ids(o, r):
    if o is None:
        return
    k = o[0]
    if k == 'id':
        r.append(o[1])
    elif k == 'agg':
        for _, x in o[1]:
            _ids(x, r)


def succs(t):
    if t.op == 'br':
        return [t.a[1]] if t.a[0] == 'u' else list(dict.fromkeys([t.a[2], t.a[3]]))
    if t.op == 'switch':
        return list(dict.fromkeys([t.a[1]] + [l for _, l in t.a[2]]))
    if t.op == 'invoke':
        return [t.a[2], t.a[3]]
    return []
