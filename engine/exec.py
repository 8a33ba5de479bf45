"""Fixpoint engine: instruction transfer functions, call/unwind handling, loop-head folding and joining."""
import heapq
import itertools
import re
from fractions import Fraction

import ir
from absint import *
from absint import _TABS, _cmp, _bin
import absint

BIN = ir.BIN
CASTS = ir.CASTS


def _num(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def wto(f):
    """Bourdoncle weak topological order: block -> position, and the set of component heads"""
    import sys
    sys.setrecursionlimit(100000)
    dfn = {}
    num = [0]
    stack = []
    heads = set()
    order = []           # reversed
    blocks = f.blocks
    INF = 1 << 60

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        head = dfn[v] = num[0]
        loop = False
        for s in blocks[v].succ:
            m = visit(s, part) if dfn.get(s, 0) == 0 else dfn[s]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                sub = []
                for s in blocks[v].succ:
                    if dfn.get(s, 0) == 0:
                        visit(s, sub)
                heads.add(v)
                part.append((v, sub))
            else:
                part.append((v, None))
        return head
    visit(f.entry.name, order)
    pos = {}

    def walk(part):
        for v, sub in reversed(part):
            pos[v] = len(pos)
            if sub is not None:
                walk(sub)
    walk(order)
    for b in blocks.values():
        b.rpo = pos.get(b.name, 1 << 20)
        b.is_head = b.name in heads
    f.heads = heads


class Variant:
    __slots__ = ('st', 'slots', 'doms', 'masks', 'piv', 'mins', 'dead', 'ns', 'n', 'canon')


class Machine(Interp):
    def __init__(self, mod, models=(), max_steps=3000000, delay=12, fold_mode='ptr', max_variants=4000):
        Interp.__init__(self, mod, models, max_steps, delay)
        self.sizes = {}
        self.fold_mode = fold_mode
        self.table = {}
        self.exact = {}
        self.trace_blocks = False
        self.max_states = 400000
        self.on_ret = None
        self.join_log = {}
        self.keep_obj = ()
        self.opaque = set()

        self.forced = {}
        self.fold_joins = False
        self.nofold_marked = True
        self.debug = False
        self.nofold = set()
        self.marks = None
        self.keep_first = False
        self.peek = 1 << 30

    def show_join(self, V, st, lins, shape, J, nspec, f, b):
        print('FORCED JOIN', f.name[-40:], b.name, 'nspec', nspec)
        names = self.slot_names(st)
        for i, (nm, x, y, e) in enumerate(zip(names, V.slots, lins, J[1])):
            print('   ', 'S' if i < nspec else ' ', 'P' if i in J[2] else ' ', nm, lstr(x), '|', lstr(y), '->', e)

    def slot_names(self, st):
        out = []

        def enc(v, nm):
            k = v[0]
            if k == 'c' and v[1] == 64 or k == 'l' or k == 'p':
                out.append(nm)
            elif k == 'q':
                out.append(nm)
            elif k == 'agg':
                for i, x in enumerate(v[1]):
                    enc(x, nm + '.%d' % i)
        for tn in sorted(st.tapes):
            for c in st.tapes[tn][1]:
                if c[0] == 'V':
                    enc(c[1], 'V')
                elif c[0] in 'BOGI':
                    out.append('%s %s %s' % (tn, c[0], (c[2], sorted(c[3])[:4]) if c[0] in 'BO' else ''))
                    if len(c) > 6:
                        out.extend('weight' for _ in c[6])
        for r in sorted(st.regs):
            enc(st.regs[r], r)
        for fr in st.frames:
            for k in sorted(fr[3]):
                enc(fr[3][k], 'frame ' + k)
        for k in sorted(st.env):
            enc(st.env[k], k)
        for k in sorted(st.mem):
            enc(st.mem[k][1], str(k))
        return out

    # ------------------------------------------------------------ driver
    def func(self, name):
        f = self.mod.funcs[name]
        if not f._done:
            f.parse()
            wto(f)
            f.mem_liveness()
        return f

    def start(self, fname, args, st):
        f = self.func(fname)
        st.env = {}
        for (nm, t), v in zip(f.params, args):
            st.env[nm] = v
        self.enter_fn(st, f)
        self.push(st, f, f.entry.name)

    def enter_fn(self, st, f):
        self.visited_fns.add(f.name)

    def push(self, st, f, bn, var=None):
        key = tuple(self.mod.funcs[fr[0]].blocks[fr[1]].rpo for fr in st.frames) + (f.blocks[bn].rpo,)
        heapq.heappush(self.heap, (key, next(self.cnt), f, bn, st, var))

    def run(self):
        while self.heap:
            key, _, f, bn, st, var = heapq.heappop(self.heap)
            if var is not None and var.dead:
                continue
            if var is not None:
                st = st.copy()
            self.block(st, f, bn)
            if self.steps > self.max_steps:
                raise AnalysisBroken('step budget exceeded (%d)' % self.steps)
        return self

    def block(self, st, f, bn):
        stack = [(st, f, bn, 0)]
        while stack:
            st, f, bn, i = stack.pop()
            b = f.blocks[bn]
            if i == 0:
                self.visited_blocks.add((f.name, bn))
            ins_list = b.ins
            n = len(ins_list)
            while True:
                ins = ins_list[i]
                self.steps += 1
                op = ins.op
                try:
                    r = self.step(st, f, b, i, ins, op)
                except Infeasible:
                    r = None
                if r is None:
                    break           # state ended or transferred
                if r is True:
                    i += 1
                    continue
                # list of (state, value) results to continue with, or ('go', ...)
                if type(r) is tuple and r[0] == 'jump':
                    for (s, g, nb, k) in r[1]:
                        stack.append((s, g, nb, k))
                    break
                if len(r) == 1:
                    st2, v = r[0]
                    st = st2
                    if ins.res and v is not None:
                        st.env[ins.res] = v
                    i += 1
                    continue
                for s, v in r:
                    if ins.res and v is not None:
                        s.env[ins.res] = v
                    stack.append((s, f, bn, i + 1))
                break

    # ------------------------------------------------------------ control flow
    def goto(self, st, f, frm, to):
        """-> list of jump targets"""
        b = f.blocks[to]
        if b.phis:
            vals = []
            for ph in b.phis:
                for v, lab in ph.a:
                    if lab == frm:
                        vals.append((ph.res, self.opv(st, v)))
                        break
                else:
                    raise AnalysisBroken('phi')
            for k, v in vals:
                st.env[k] = v
        if len(b.preds) > 1 or b.is_head:
            self.arrive(st, f, b)
            return []
        return [(st, f, to, 0)]

    def step(self, st, f, b, i, ins, op):
        env = st.env
        self.cur_ins = ins
        if op == 'load':
            p = self.opv(st, ins.a)
            return self.load(st, p, ins.ty, ins)
        if op == 'store':
            v = self.opv(st, ins.a[0])
            p = self.opv(st, ins.a[1])
            return [(s, None) for s in self.store(st, p, v, ins.ty, ins)]
        if op == 'getelementptr':
            return [(st, self.gep(st, self.opv(st, ins.a[0]), ins.a[1]))]
        if op == 'icmp':
            pred, a, c = ins.a
            w = 64 if ins.ty[0] == 'ptr' else ins.ty[1] if ins.ty[0] == 'i' else 0
            return self.icmp(st, pred, w, self.opv(st, a), self.opv(st, c), ins)
        if op in BIN:
            if ins.ty[0] != 'i':
                env[ins.res] = ('t', 0)
                return True
            a = self.opv(st, ins.a[0])
            c = self.opv(st, ins.a[1])
            r = self.bin(st, op, ins.ty[1], a, c, ins)
            if type(r) is list:
                return r
            env[ins.res] = r
            return True
        if op in CASTS:
            v = self.opv(st, ins.a[0])
            sw = 64 if ins.a[1][0] == 'ptr' else ins.a[1][1]
            dw = 64 if ins.ty[0] == 'ptr' else ins.ty[1]
            return self.castv(st, op, v, sw, dw, ins)
        if op == 'br':
            a = ins.a
            if a[0] == 'u':
                return ('jump', self.goto(st, f, b.name, a[1]))
            c = self.opv(st, a[1])
            out = []
            if c[0] == 'u':
                self.event('uninit-branch', 'branch on an uninitialised value', st, ins)
                return None
            for s, t in self.truth(st, c):
                out += self.goto(s, f, b.name, a[2] if t else a[3])
            return ('jump', out)
        if op == 'switch':
            return self.switch(st, f, b, ins)
        if op == 'select':
            return self.select(st, ins)
        if op == 'alloca':
            nm = 'A%d%s%s' % (len(st.frames), f.name, ins.res)
            self.sizes[nm] = self.mod.sizeof(ins.ty)
            for k in [k for k in st.mem if k[0] == nm]:
                del st.mem[k]
            if nm in st.dead:
                st.dead = st.dead - {nm}
            env[ins.res] = ('p', nm, L0)
            return True
        if op == 'call' or op == 'invoke':
            return self.call(st, f, b, i, ins)
        if op == 'ret':
            v = self.opv(st, ins.a) if ins.a is not None else None
            return self.ret(st, f, v)
        if op == 'extractvalue':
            v = self.opv(st, ins.a[0])
            for k in ins.a[1]:
                v = v[1][k] if v[0] == 'agg' else UNDEF
            env[ins.res] = v
            return True
        if op == 'insertvalue':
            v = self.opv(st, ins.a[0])
            w = self.opv(st, ins.a[1])
            env[ins.res] = self.insert(v, w, ins.a[2], ins.ty)
            return True
        if op == 'freeze':
            env[ins.res] = self.opv(st, ins.a)
            return True
        if op == 'unreachable':
            self.event('unreachable', 'control reaches a point the compiler assumes unreachable', st, ins)
            return None
        if op == 'landingpad':
            raise AnalysisBroken('landingpad')
        if op == 'resume':
            return self.unwind(st, f, st.regs.get('$exc', ('x', '?'))[1], ins, pop=True)
        raise AnalysisBroken('op ' + op)

    def insert(self, v, w, idx, ty):
        ty = self.mod.resolve(ty)
        n = len(ty[1]) if ty[0] == 's' else ty[1]
        el = list(v[1]) if v[0] == 'agg' else [UNDEF] * n
        if len(idx) == 1:
            el[idx[0]] = w
        else:
            el[idx[0]] = self.insert(el[idx[0]], w, idx[1:], ty[1][idx[0]] if ty[0] == 's' else ty[2])
        return ('agg', tuple(el))

    def bin(self, st, op, w, a, c, ins):
        if op in ('udiv', 'urem', 'sdiv', 'srem') and c[0] == 'c' and c[2] == 0:
            self.event('div0', 'division by zero', st, ins)
            return []
        # lin with finite variable: linear arithmetic needs a constant -> split small
        if w == 64 and (a[0] == 'l' and c[0] == 'f' or a[0] == 'f' and c[0] == 'l' or a[0] == 'p' and c[0] == 'f' or a[0] == 'f' and c[0] == 'p'):
            fv, other, left = (c, a, True) if c[0] == 'f' else (a, c, False)
            im = sorted(st.image(fv))
            if len(im) <= 40:
                out = []
                d = st.dom(fv[2])
                for x in im:
                    s = st.copy()
                    try:
                        s.restrict(fv[2], [y for y in d if tlook(fv[3], y) == x])
                    except Infeasible:
                        continue
                    k = C(64, x)
                    out.append((s, binop(s, op, w, other, k) if left else binop(s, op, w, k, other)))
                return out
        if a[0] == 'f' and c[0] == 'f' and a[2] != c[2] and w > 1:
            if self.split:
                # exact: one state per value of one operand
                fv, other, left = (c, a, True) if len(st.image(c)) <= len(st.image(a)) else (a, c, False)
                im = sorted(st.image(fv))
                d = st.dom(fv[2])
                out = []
                for x in im:
                    s = st.copy()
                    try:
                        s.restrict(fv[2], [y for y in d if tlook(fv[3], y) == x])
                    except Infeasible:
                        continue
                    k = C(w, x)
                    out.append((s, binop(s, op, w, other, k) if left else binop(s, op, w, k, other)))
                return out
            if not st.imprecise:
                st.imprecise = 'two bytes combined'
        r = binop(st, op, w, a, c)
        if self.split and w == 64 and r[0] == 'f' and op in ('add', 'sub'):
            # sizes are counted per path
            im = sorted(st.image(r))
            if len(im) <= 8:
                d = st.dom(r[2])
                out = []
                for x in im:
                    s = st.copy()
                    try:
                        s.restrict(r[2], [y for y in d if tlook(r[3], y) == x])
                    except Infeasible:
                        continue
                    out.append((s, C(64, x)))
                return out
        if r[0] == 't' and w == 1 and op in ('and', 'or', 'xor'):
            # booleans from different variables: split
            out = []
            for s, x in self.truth(st, a):
                k = C(1, int(x))
                out.append((s, None))
                out[-1] = (s, binop(s, op, 1, k, self.opv(s, ins.a[1])))
            return out
        return r

    def castv(self, st, op, v, sw, dw, ins):
        if op == 'trunc' and v[0] == 'l' and 8 <= dw < 32:
            # a length that may not fit: kept when it does, some other number when it does not
            out = []
            for s, big in split_neg(st, lsub(lconst((1 << dw) - 1), v[1])):
                if big:
                    k = s.newsym(0)
                    out.append((s, ('l', (0, ((k, 1),)))))
                else:
                    out.append((s, v))
            return out
        return [(st, cast(st, op, v, sw, dw))]

    def gep(self, st, base, parts):
        v = base
        for x in parts:
            if x[0] == 'c':
                if x[1] == 0:
                    continue
                if v[0] == 'p':
                    v = ('p', v[1], ladd(v[2], lconst(x[1])))
                elif v[0] == 'q':
                    v = ('q', v[1], ladd(v[2], lconst(x[1])), v[3])
                elif v[0] == 'c':
                    v = C(64, v[2] + x[1])
                continue
            _, sc, o, w = x
            iv = self.opv(st, o)
            if w < 64:
                iv = cast(st, 'sext', iv, w, 64)
            if v[0] in 'pq' and iv[0] in 'cl':
                l = aslin(iv)
                if v[0] == 'p':
                    v = ('p', v[1], ladd(v[2], l, sc))
                else:
                    v = ('q', v[1], ladd(v[2], l, sc), v[3])
            elif v[0] == 'p' and iv[0] == 'f':
                if sc != 1:
                    iv = binop(st, 'mul', 64, iv, C(64, sc))
                v = ('q', v[1], v[2], iv) if iv[0] == 'f' else ('p', v[1], ladd(v[2], aslin(iv))) if iv[0] == 'c' else ('t', 64)
            elif v[0] == 'c' and iv[0] == 'c':
                v = C(64, v[2] + sc * iv[2])
            elif v[0] == 'c' and iv[0] == 'l' and v[2] == 0:
                v = mklin(lmul(iv[1], sc))
            elif v[0] == 'u':
                v = UNDEF
            else:
                v = ('t', 64)
        return v

    def switch(self, st, f, b, ins):
        v = self.opv(st, ins.a[0])
        dflt, cases = ins.a[1], ins.a[2]
        out = []
        if v[0] == 'c':
            for n, l in cases:
                if n == v[2]:
                    return ('jump', self.goto(st, f, b.name, l))
            return ('jump', self.goto(st, f, b.name, dflt))
        if v[0] == 'u':
            self.event('uninit-branch', 'switch on an uninitialised value', st, ins)
            return None
        if v[0] == 'f':
            d = st.dom(v[2])
            tgt = {}
            cm = dict(cases)
            for x in d:
                tgt.setdefault(cm.get(tlook(v[3], x), dflt), []).append(x)
            for l, xs in tgt.items():
                s = st.copy()
                try:
                    s.restrict(v[2], xs)
                except Infeasible:
                    continue
                out += self.goto(s, f, b.name, l)
            return ('jump', out)
        l = aslin(v) if ins.ty == ('i', 64) else None
        if l is not None:
            cur = [(st, l)]
            st.regs['$sw'] = mklin(l)
            for n, lab in cases:
                nxt = []
                for s, _ in cur:
                    x = ladd(aslin(s.regs['$sw']), lconst(-sgn(n, 64)))
                    for t, z in split_zero(s, x):
                        if z:
                            t.regs.pop('$sw')
                            out += self.goto(t, f, b.name, lab)
                        else:
                            nxt.append((t, None))
                cur = nxt
            for s, _ in cur:
                s.regs.pop('$sw')
                out += self.goto(s, f, b.name, dflt)
            return ('jump', out)
        st.imprecise = st.imprecise or 'switch on unknown'
        for lab in dict.fromkeys([dflt] + [x for _, x in cases]):
            out += self.goto(st.copy(), f, b.name, lab)
        return ('jump', out)

    def select(self, st, ins):
        c = self.opv(st, ins.a[0])
        if c[0] == 'c':
            return [(st, self.opv(st, ins.a[1] if c[2] & 1 else ins.a[2]))]
        a, b = self.opv(st, ins.a[1]), self.opv(st, ins.a[2])
        if a == b:
            return [(st, a)]
        if c[0] == 'f' and ins.ty[0] == 'i':
            w = ins.ty[1]

            def tab(v):
                if v[0] == 'c':
                    return lambda x: v[2]
                if v[0] == 'f' and v[2] == c[2]:
                    return lambda x: tlook(v[3], x)
                return None
            fa, fb = tab(a), tab(b)
            if fa and fb:
                if isinstance(st.fv[c[2]], int):
                    ct = _TABS[c[3]]
                    def ev(x):
                        if ct[x] is None:
                            return None
                        return fa(x) if ct[x] else fb(x)
                    t = intern_tab(tuple(ev(x) for x in range(256)))
                else:
                    t = intern_tab({x: (fa(x) if tlook(c[3], x) else fb(x)) for x in st.dom(c[2])})
                return [(st, fn(st, w, c[2], t))]
        out = []
        if c[0] == 'u':
            self.event('uninit-branch', 'select on an uninitialised value', st, ins)
            return []
        for s, t in self.truth(st, c):
            out.append((s, self.opv(s, ins.a[1] if t else ins.a[2])))
        return out

    # ------------------------------------------------------------ calls
    def call(self, st, f, b, i, ins):
        callee, args, nb, ub = ins.a
        cv = self.opv(st, callee)
        if cv[0] != 'p':
            return self.unknown_call(st, f, b, i, ins, cv)
        name = cv[1]
        av = [self.opv(st, o) for _, o in args]
        h = self.model(name)
        if h is not None:
            res = h(self, st, av, ins, name)
            return self.after(f, b, i, ins, res)
        g = self.mod.funcs.get(name)
        if g is not None:
            g = self.func(name)
            if len(st.frames) > 40 or any(fr[0] == name for fr in st.frames) or f.name == name:
                raise AnalysisBroken('recursion through ' + name)
            # live part of the caller environment only
            s2 = st
            s2.frames = st.frames + ((f.name, b.name, i, st.env, ins),)
            s2.env = {nm: v for (nm, t), v in zip(g.params, av)}
            self.enter_fn(s2, g)
            eb = g.entry
            if eb.is_head or eb.preds:
                self.arrive(s2, g, eb)
                return None
            return ('jump', [(s2, g, eb.name, 0)])
        res = self.extern(st, name, av, ins)
        return self.after(f, b, i, ins, res)

    def unknown_call(self, st, f, b, i, ins, cv):
        raise AnalysisBroken('indirect call through %r' % (cv,))

    def extern(self, st, name, av, ins):
        raise AnalysisBroken('call to unmodelled external %s' % name)

    def model(self, name):
        if name in self.mcache:
            return self.mcache[name]
        r = None
        for pat, h in self.models:
            if pat.search(name):
                r = h
                break
        self.mcache[name] = r
        return r

    def after(self, f, b, i, ins, res):
        """res: list of ('ret', st, v) / ('throw', st, type)"""
        out = []
        for kind, s, v in res:
            if kind == 'ret':
                if ins.res and v is not None:
                    s.env[ins.res] = v
                elif ins.res:
                    s.env[ins.res] = UNDEF
                if ins.op == 'invoke':
                    out += self.goto(s, f, b.name, ins.a[2])
                else:
                    out.append((s, f, b.name, i + 1))
            else:
                r = self.throw_at(s, f, b, ins, v)
                if r:
                    out += r
        return ('jump', out)

    def throw_at(self, st, f, b, ins, ty):
        """an exception leaves the call `ins`"""
        st.regs['$exc'] = ('x', ty)
        if ins.op == 'invoke':
            return self.land(st, f, b, ins.a[3], ty)
        r = self.unwind(st, f, ty, ins, pop=True)
        return r[1] if r else []

    def unwind(self, st, f, ty, ins, pop):
        while True:
            self.leave(st, f)
            if not st.frames:
                self.finish(st, 'throw', ty, ins)
                return None
            fr = st.frames[-1]
            st.frames = st.frames[:-1]
            st.env = dict(fr[3])
            f = self.mod.funcs[fr[0]]
            ci = fr[4]
            if ci.op == 'invoke':
                return ('jump', self.land(st, f, f.blocks[fr[1]], ci.a[3], ty))

    def land(self, st, f, frm, ub, ty):
        b = f.blocks[ub]
        lp = b.ins[0]
        if lp.op != 'landingpad':
            raise AnalysisBroken('landing pad expected')
        if b.phis:
            vals = []
            for ph in b.phis:
                for v, lab in ph.a:
                    if lab == frm.name:
                        vals.append((ph.res, self.opv(st, v)))
                        break
            for k, v in vals:
                st.env[k] = v
        sel = None
        for cl in lp.a:
            if cl[0] == 'catch':
                t = cl[1][1] if cl[1][0] == 'g' else None
                if t is None or self.catches(t, ty):
                    sel = C(32, self.typeid(t))
                    break
        if sel is None:
            if not any(c[0] == 'cleanup' for c in lp.a):
                # this pad does not handle it: keep unwinding
                r = self.unwind(st, f, ty, lp, pop=True)
                return r[1] if r else []
            sel = C(32, 0)
        st.env[lp.res] = ('agg', (('p', '$exc', L0), sel))
        return [(st, f, ub, 1)]

    def typeid(self, t):
        if t is None:
            return 1
        import zlib
        return (zlib.crc32(t.encode()) & 0x3fffffff) + 2

    def catches(self, t, ty):
        from models import derives
        return derives(ty, t)

    def leave(self, st, f):
        pre = 'A%d%s%%' % (len(st.frames), f.name)
        for k in [k for k in st.mem if k[0].startswith(pre)]:
            del st.mem[k]
        if st.dead:
            st.dead = frozenset(d for d in st.dead if not d.startswith(pre))

    def ret(self, st, f, v):
        self.leave(st, f)
        if not st.frames:
            self.finish(st, 'ret', v, None)
            return None
        fr = st.frames[-1]
        st.frames = st.frames[:-1]
        st.env = dict(fr[3])
        g = self.mod.funcs[fr[0]]
        ci = fr[4]
        if ci.res:
            st.env[ci.res] = v if v is not None else UNDEF
        if ci.op == 'invoke':
            return ('jump', self.goto(st, g, fr[1], ci.a[2]))
        return ('jump', [(st, g, fr[1], fr[2] + 1)])

    def finish(self, st, kind, v, ins):
        self.nexits = getattr(self, 'nexits', 0) + 1
        if self.on_exit:
            self.on_exit(self, st, kind, v, ins)

    # ------------------------------------------------------------ loop heads
    def arrive(self, st, f, b):
        # prune dead SSA values
        live = b.live_in
        ph = {p.res for p in b.phis}
        env = st.env
        for k in [k for k in env if k not in live and k not in ph]:
            del env[k]
        if st.frames:
            st.frames = tuple(self.prune_frame(fr) for fr in st.frames)
        # prune dead local memory
        if f.mbase:
            pre = 'A%d%s' % (len(st.frames), f.name)
            n = len(pre)
            lv = f.mlive[b.name]
            for k in [k for k in st.mem if k[0].startswith(pre)]:
                r = k[0][n:]
                bs = f.mbase.get(r)
                if bs is not None and not lv >> (bs + k[1]) & ((1 << st.mem[k][0]) - 1):
                    del st.mem[k]
        if st.facts:
            st.tighten()
        if self.split:
            self.gc(st)
            self.detach(st)
            shape, lins, doms, masks, order = self.canon(st, f, b)
            k = (shape, tuple(lins_c(lins, st)), tuple(doms), tuple(masks), facts_c(st, lins))
            if k not in self.exact:
                self.exact[k] = 1
                self.nstates += 1
                self.push(st, f, b.name)
            return
        nofold = (f.name in self.nofold or self.nofold_marked and '$wr' in st.regs) and not b.is_head
        if (b.is_head or self.fold_joins) and not nofold:
            self.fold(st)
        self.gc(st)
        self.detach(st)
        shape, lins, doms, masks, order = self.canon(st, f, b)
        if not b.is_head and (nofold or not self.fold_joins):
            k = (shape, tuple(lins_c(lins, st)), tuple(doms), tuple(masks), facts_c(st, lins))
            if k in self.exact:
                return
            self.exact[k] = 1
            self.nstates += 1
            if self.nstates > self.max_states:
                raise AnalysisBroken('state budget exceeded')
            self.push(st, f, b.name)
            return
        self.head(st, f, b, shape, lins, doms, masks, order)

    def prune_frame(self, fr):
        # frame env: keep only values live after the call
        f = self.mod.funcs[fr[0]]
        key = (fr[1], fr[2])
        cache = f.__dict__.setdefault('_lv', {})
        lv = cache.get(key)
        if lv is None:
            b = f.blocks[fr[1]]
            lv = set()
            for s in b.succ:
                lv |= f.blocks[s].live_in
                for ph in f.blocks[s].phis:
                    for v, lab in ph.a:
                        if lab == b.name and v[0] == 'id':
                            lv.add(v[1])
            for ins in b.ins[fr[2] + 1:]:
                lv |= set(ins.uses)
            cache[key] = lv
        env = fr[3]
        if all(k in lv for k in env):
            return fr
        return fr[:3] + ({k: v for k, v in env.items() if k in lv},) + fr[4:]

    def gc(self, st):
        used = set()

        def val(v):
            k = v[0]
            if k == 'f':
                used.add(v[2])
            elif k == 'q':
                val(v[3])
            elif k == 'agg':
                for x in v[1]:
                    val(x)
        for v in st.all_vals():
            val(v)
        for v in st.regs.values():
            val(v)
        for nm, (au, cells, mode) in st.tapes.items():
            for c in cells:
                if c[0] == 'C':
                    used.add(c[1])
                elif c[0] == 'V':
                    val(c[1])
        if len(used) != len(st.fv):
            st.fv = {k: v for k, v in st.fv.items() if k in used}

    def detach(self, st):
        """byte variables no longer on a tape and used by a single table become plain data variables"""
        on = {}
        for nm, (au, cells, mode) in st.tapes.items():
            for c in cells:
                if c[0] == 'C':
                    on[c[1]] = 1
        cand = {}
        for fid, d in st.fv.items():
            if fid not in on:
                cand[fid] = set()
        if not cand:
            return

        def val(v):
            k = v[0]
            if k == 'f':
                if v[2] in cand:
                    cand[v[2]].add(v[3])
            elif k == 'q':
                val(v[3])
            elif k == 'agg':
                for x in v[1]:
                    val(x)
        for v in st.all_vals():
            val(v)
        for v in st.regs.values():
            val(v)
        for nm, (au, cells, mode) in st.tapes.items():
            for c in cells:
                if c[0] == 'V':
                    val(c[1])
        ren = {}
        for fid, tids in cand.items():
            if len(tids) == 1:
                t = next(iter(tids))
                if t == IDD:
                    continue
                img = frozenset(tlook(t, x) for x in st.dom(fid))
                ren[fid] = img
        if not ren:
            return

        def mp(v):
            if v[0] == 'f' and v[2] in ren:
                im = ren[v[2]]
                if len(im) == 1:
                    return C(v[1], next(iter(im)))
                return ('f', v[1], v[2], IDD)
            if v[0] == 'q':
                return v[:3] + (mp(v[3]),)
            if v[0] == 'agg':
                return ('agg', tuple(mp(x) for x in v[1]))
            return v
        st.map_vals(mp)
        for nm, (au, cells, mode) in list(st.tapes.items()):
            if any(c[0] == 'V' for c in cells):
                st.tapes[nm] = (au, tuple(('V', mp(c[1])) if c[0] == 'V' else c for c in cells), mode)
        for fid, im in ren.items():
            st.fv[fid] = im

    def held_positions(self, st, tn):
        pos = set()

        def val(v):
            k = v[0]
            if k == 'p' and v[1] == tn:
                pos.add(v[2])
            elif k == 'agg':
                for x in v[1]:
                    val(x)
        for v in st.all_vals():
            val(v)
        return pos

    def fold(self, st):
        """merge runs of cells nobody points into; the same run on several tapes becomes the same blob"""
        multi = sum(1 for au, cells, mode in st.tapes.values() if mode is not None and au is not None) > 1
        plans = []
        for tn, (au, cells, mode) in list(st.tapes.items()):
            if mode is None or au is None:
                continue
            held = self.held_positions(st, tn)
            bs = bounds(cells)
            if self.marks is not None:
                held |= self.marks(st, tn)
            if mode == 'all':
                for v in st.all_vals():
                    if v[0] in 'lc':
                        l = aslin(v)
                        if v[0] == 'l' or v[1] == 64:
                            held.add(l)
            hp = [i for i, x in enumerate(bs) if x in held]
            last = max([i for i in hp if i < len(cells)], default=len(cells) if hp or not held else -1)
            runs = []        # ('k', cell) kept or ('r', [cells], group)
            cur = None
            for i, c in enumerate(cells):
                if bs[i] in held:
                    cur = None
                if last <= i < last + self.peek or c[0] in 'OVGIX' or c[0] == 'C' and (c[2] is None or not isinstance(st.fv[c[1]], int)):
                    cur = None
                    runs.append(['k', c])
                    continue
                g = (au.cell_group(c[2], c[3], st.fv[c[1]]) if c[0] == 'C' else c[5]) >> 256
                if c[0] == 'C' and g in au.gw and au.cell_weight(c[2], c[3], st.fv[c[1]], g) is None:
                    cur = None
                    runs.append(['k', c])
                    continue
                if self.keep_first and bs[i] in held and c[0] == 'C':
                    cur = None
                    runs.append(['k', c])
                    continue
                if cur is not None:
                    z = cur[1][-1]
                    zr = frozenset([z[3]]) if z[0] == 'C' else z[3]
                    if cur[2] != g or zr != frozenset([c[2]]):
                        cur = None
                if cur is None:
                    cur = ['r', [c], g]
                    runs.append(cur)
                else:
                    cur[1].append(c)
            plans.append((tn, runs))
        if multi:
            # a break between two cells on one tape is a break on every tape that has either cell
            nxt, prv = {}, {}
            kept = set()
            for tn, runs in plans:
                for r in runs:
                    if r[0] == 'k':
                        if r[1][0] in 'CB':
                            kept.add(r[1][1])
                            nxt.setdefault(r[1][1], set()).add(None)
                            prv.setdefault(r[1][1], set()).add(None)
                        continue
                    ids = [c[1] for c in r[1]]
                    for x, y in zip([None] + ids, ids + [None]):
                        if x is not None:
                            nxt.setdefault(x, set()).add(y)
                        if y is not None:
                            prv.setdefault(y, set()).add(x)
            for tn, runs in plans:
                out = []
                for r in runs:
                    if r[0] == 'k':
                        out.append(r)
                        continue
                    cur = None
                    for c in r[1]:
                        if cur is None or len(nxt[cur[1][-1][1]]) > 1 or len(prv[c[1]]) > 1:
                            cur = ['r', [c], r[2]]
                            out.append(cur)
                        else:
                            cur[1].append(c)
                runs[:] = [['k', r[1][0]] if r[0] == 'r' and len(r[1]) == 1 and r[1][0][1] in kept else r for r in out]
        memo = {}
        for tn, runs in plans:
            au, cells, mode = st.tapes[tn]
            out = []
            for r in runs:
                if r[0] == 'k':
                    out.append(r[1])
                    continue
                run = r[1]
                if len(run) == 1 and run[0][0] == 'B':
                    out.append(run[0])
                    continue
                k = tuple(c[1] for c in run)
                nb = memo.get(k)
                if nb is None:
                    m = 0
                    ln = L0
                    for c in run:
                        m |= st.fv[c[1]] if c[0] == 'C' else c[5]
                        ln = ladd(ln, clen(c))
                    z = run[-1]
                    R = frozenset([z[3]]) if z[0] == 'C' else z[3]
                    nb = ('B', fresh(), run[0][2], R, ln, m & ALL | r[2] << 256)
                    if r[2] in au.gw:
                        w = [L0] * len(au.gw[r[2]])
                        for c in run:
                            a = [lconst(x) for x in au.cell_weight(c[2], c[3], st.fv[c[1]], r[2])] if c[0] == 'C' else c[6]
                            w = [ladd(x, y) for x, y in zip(w, a)]
                        nb += (tuple(w),)
                    memo[k] = nb
                out.append(nb)
            st.tapes[tn] = (au, tuple(out), mode)

    def canon(self, st, f, b):
        lins = []
        fids = {}
        doms = []
        masks = []
        bids = {}
        fv = st.fv

        def fx(fid):
            i = fids.get(fid)
            if i is None:
                i = fids[fid] = len(fids)
                doms.append(fv[fid])
            return i

        def enc(v):
            k = v[0]
            if k == 'c':
                if v[1] == 64:
                    lins.append((sgn(v[2], 64), ()))
                    return 'L'
                return v
            if k == 'l':
                lins.append(v[1])
                return 'L'
            if k == 'p':
                lins.append(v[2])
                bs = bnd.get(v[1])
                if bs is not None:
                    for i, x in enumerate(bs):
                        if x == v[2]:
                            return ('p', v[1], i)
                    for i, x in enumerate(bs):
                        d = lsub(v[2], x)
                        if not d[1]:
                            return ('p', v[1], i, d[0])
                return ('p', v[1])
            if k == 'f':
                return ('f', v[1], fx(v[2]), v[3])
            if k == 'q':
                lins.append(v[2])
                return ('q', v[1], enc(v[3]))
            if k == 'agg':
                return ('agg',) + tuple(enc(x) for x in v[1])
            return v
        sh = []
        bnd = {}
        for tn in sorted(st.tapes):
            au, cells, mode = st.tapes[tn]
            bnd[tn] = bounds(cells)
            row = [tn]
            for c in cells:
                k = c[0]
                if k == 'C':
                    row.append(('C', fx(c[1]), c[2], c[3]) + (au.cell_act(c[2], c[3], fv[c[1]]) if au.gw and c[2] is not None else ()))
                elif k == 'V':
                    row.append(('V', enc(c[1])))
                elif k in 'BO':
                    i = bids.get(c[1])
                    if i is None:
                        i = bids[c[1]] = len(bids)
                        masks.append(c[5])
                    row.append((k, i, c[2], c[3], c[5] >> 256))
                    lins.append(c[4])
                    if len(c) > 6:
                        lins.extend(c[6])
                elif k == 'G':
                    row.append(('G',) + c[2:])
                    lins.append(c[1])
                else:
                    row.append(('I',) + tuple(x for x in c[2:]))
                    lins.append(c[1])
            sh.append(tuple(row))
        for r in sorted(st.regs):
            sh.append((r, enc(st.regs[r])))
        nspec = len(lins)
        sh.append(b.name)
        sh.append(f.name)
        for fr in st.frames:
            sh.append((fr[0], fr[1], fr[2]) + tuple((k, enc(v)) for k, v in sorted(fr[3].items())))
        env = st.env
        for k in sorted(env):
            sh.append((k, enc(env[k])))
        for k in sorted(st.mem):
            w, v = st.mem[k]
            sh.append((k, w, enc(v)))
        sh.append(st.dead)
        sh.append(bool(st.imprecise))
        return tuple(sh), lins, doms, masks, (fids, bids, nspec)

    # ---- affine-hull machinery on slot vectors
    def normal(self, lins):
        """Choose pivot slots (in slot order) and express every slot over them.
        -> (piv: slot indices, ex: [(const, {j: coef})], basis)"""
        basis = []    # (lead symbol, row {sym: coef} with 1 at lead, combo {j: coef}, const): row = sum combo_j * slot_piv_j + const
        piv = []
        ex = []
        for si, l in enumerate(lins):
            if not l[1]:
                ex.append((l[0], {}))
                continue
            row, combo, cst = self.reduce(l, basis)
            if not row:
                # slot = c - (residue is zero): slot = l0 + row ; row was eliminated by -combo
                ex.append((_num(cst), combo))
                continue
            j = len(piv)
            piv.append(si)
            ex.append((0, {j: 1}))
            # row = slot_j - (cst + sum combo)
            nc = {k: -v for k, v in combo.items()}
            nc[j] = nc.get(j, 0) + 1
            ncst = -cst
            lead = None
            for k in row:
                if abs(row[k]) == 1:
                    lead = k
                    break
            if lead is None:
                lead = min(row)
            c = row[lead]
            if c != 1:
                row = {k: (-v if c == -1 else _num(Fraction(v) / c)) for k, v in row.items()}
                nc = {k: (-v if c == -1 else _num(Fraction(v) / c)) for k, v in nc.items()}
                ncst = -ncst if c == -1 else _num(Fraction(ncst) / c)
            nb = []
            for ld, br, bc, bk in basis:
                cc = br.get(lead)
                if cc:
                    br = dict(br)
                    bc = dict(bc)
                    for k, v in row.items():
                        y = br.get(k, 0) - cc * v
                        if y:
                            br[k] = _num(y)
                        else:
                            br.pop(k, None)
                    for k, v in nc.items():
                        y = bc.get(k, 0) - cc * v
                        if y:
                            bc[k] = _num(y)
                        else:
                            bc.pop(k, None)
                    bk = _num(bk - cc * ncst)
                nb.append((ld, br, bc, bk))
            nb.append((lead, row, nc, ncst))
            basis = nb
        return piv, ex, basis

    def reduce(self, l, basis):
        """-> (residual row, combo, const) with  l = residual + sum combo_j*slot_j + const"""
        row = dict(l[1])
        combo = {}
        cst = l[0]
        for lead, br, bc, bk in basis:
            c = row.get(lead)
            if c:
                for k, v in br.items():
                    x = row.get(k, 0) - c * v
                    if x:
                        row[k] = _num(x)
                    else:
                        row.pop(k, None)
                for k, v in bc.items():
                    x = combo.get(k, 0) + c * v
                    if x:
                        combo[k] = _num(x)
                    else:
                        combo.pop(k, None)
                cst += c * bk
        return row, combo, _num(cst)

    def head(self, st, f, b, shape, lins, doms, masks, order):
        nspec = order[2]
        lst = self.table.setdefault(shape, [])
        for V in lst:
            if not V.dead and self.included(V, st, lins, doms, masks):
                return
        # candidates for joining
        cand = None
        for V in lst:
            if V.dead:
                continue
            J = self.join(V, st, lins, doms, masks, nspec)
            if J is not None and J[0]:
                cand = (V, J)
                break
        alive = [V for V in lst if not V.dead]
        if cand is None and len(alive) >= self.delay:
            V = alive[-1]
            J = self.join(V, st, lins, doms, masks, nspec)
            cand = (V, J)
            self.forced[(f.name, b.name)] = self.forced.get((f.name, b.name), 0) + 1
            if self.debug:
                self.show_join(V, st, lins, shape, J, nspec, f, b)
        if cand is not None:
            V, J = cand
            V.dead = True
            self.njoins += 1
            self.join_log[(f.name, b.name)] = self.join_log.get((f.name, b.name), 0) + 1
            if self.join_log[(f.name, b.name)] > 60000:
                raise AnalysisBroken('no convergence at %s %s' % (f.name, b.name))
            st, lins, doms, masks = self.rebuild(st, J, lins, order, 3 if b.is_head else 12)
            if not J[0] and not st.imprecise:
                st.imprecise = 'forced join at %s' % b.name
        else:
            J = None
        W = Variant()
        W.dead = False
        W.n = cand[0].n + 1 if cand is not None else 0
        W.st = st
        W.slots = lins
        W.doms = doms
        W.masks = masks
        W.piv, ex, basis = self.normal(lins)
        W.canon = (ex, basis)
        # renormalise the state onto pivot symbols
        W.mins = [st.lbx(lins[i]) for i in W.piv]
        lst.append(W)
        self.nstates += 1
        if self.nstates > self.max_states:
            raise AnalysisBroken('state budget exceeded')
        self.push(st, f, b.name, W)

    def included(self, V, st, lins, doms, masks):
        for a, c in zip(doms, V.doms):
            if isinstance(a, int):
                if not isinstance(c, int) or a & ~c:
                    return False
            elif isinstance(c, int) or not a <= c:
                return False
        for a, c in zip(masks, V.masks):
            if a & ~c:
                return False
        ex, sol = V.canon
        piv = V.piv
        for i, l in enumerate(lins):
            c, d = ex[i]
            e = (c, ())
            for j, co in d.items():
                e = ladd(e, lins[piv[j]], co)
            if e != l and lsub(e, l) != L0:
                return False
        for j, i in enumerate(piv):
            m = V.mins[j]
            if m is not None:
                x = lins[i]
                if not st.nonneg((x[0] - m, x[1])):
                    return False
        for fct in V.st.facts:
            e = self.tr(fct, V, lins)
            if e is None:
                continue
            if not st.nonneg(e):
                return False
        for fct in V.st.ne:
            e = self.tr(fct, V, lins)
            if e is None:
                continue
            if e == L0:
                return False
            if e[1] and e not in st.ne and lmul(e, -1) not in st.ne and not st.nonneg((e[0] - 1, e[1])) and not st.nonneg((-e[0] - 1, lmul(e, -1)[1])):
                return False
        return True

    def tr(self, fct, V, lins):
        """a fact over V's symbols, re-expressed over the other state's symbols through the pivots (None: not expressible)"""
        row, combo, cst = self.reduce(fct, V.canon[1])
        if row:
            return None
        e = (cst, ())
        for j, v in combo.items():
            e = ladd(e, lins[V.piv[j]], v)
        return e

    def join(self, V, st, lins, doms, masks, nspec):
        """-> (harmless, slot expressions over new pivots, new piv, mins, doms, masks, facts)"""
        nd = []
        for a, c in zip(doms, V.doms):
            if isinstance(a, int) != isinstance(c, int):
                return None
            nd.append(a | c)
        nm = [a | c for a, c in zip(masks, V.masks)]
        # direction vectors (sparse over slots)
        dirs = []

        def dvecs(ls):
            d = {}
            for i, l in enumerate(ls):
                for s, c in l[1]:
                    d.setdefault(s, {})[i] = c
            return list(d.values())
        dirs = dvecs(V.slots) + dvecs(lins)
        diff = {i: lins[i][0] - V.slots[i][0] for i in range(len(lins)) if lins[i][0] != V.slots[i][0]}
        if diff:
            dirs.append(diff)
        base = [l[0] for l in V.slots]
        # column elimination with pivots in slot order
        red = []   # (pivot slot, vector with 1 at pivot)
        work = [dict(d) for d in dirs]
        while True:
            work = [w for w in work if w]
            if not work:
                break
            # choose the vector with the smallest leading slot
            k = min(min(w) for w in work)
            cands = [w for w in work if k in w]
            w = next((w for w in cands if abs(w[k]) == 1), cands[0])
            c = w[k]
            if c != 1:
                w2 = {i: (v // c if c == -1 else _num(Fraction(v) / c)) for i, v in w.items()}
            else:
                w2 = w
            nw = []
            for x in work:
                if x is w:
                    continue
                c = x.get(k)
                if c:
                    x = dict(x)
                    for i, v in w2.items():
                        y = x.get(i, 0) - c * v
                        if y:
                            x[i] = _num(y)
                        else:
                            x.pop(i, None)
                nw.append(x)
            work = nw
            # reduce earlier vectors
            nr = []
            for p, x in red:
                c = x.get(k)
                if c:
                    x = dict(x)
                    for i, v in w2.items():
                        y = x.get(i, 0) - c * v
                        if y:
                            x[i] = _num(y)
                        else:
                            x.pop(i, None)
                nr.append((p, x))
            red = nr + [(k, w2)]
        piv = [p for p, _ in red]
        oldcode = {i for i in V.piv if i >= nspec}
        np_ = self.normal(lins)[0]
        oldcode |= {i for i in np_ if i >= nspec}
        newcode = [i for i in piv if i >= nspec]
        harmless = len(newcode) <= max(len([i for i in V.piv if i >= nspec]), len([i for i in np_ if i >= nspec]))
        # slot_i = base_i + sum_j (t_j - base_pj) * red_j[i]
        mins = []
        for p in piv:
            a, c = V.st.lbx(V.slots[p]), st.lbx(lins[p])
            mins.append(None if a is None or c is None else min(a, c))
        ex = []
        for i in range(len(lins)):
            c = base[i]
            d = {}
            for j, (p, x) in enumerate(red):
                v = x.get(i)
                if v:
                    d[j] = v
                    c -= v * base[p]
            ex.append((_num(c), d))
        return (harmless, ex, piv, mins, nd, nm, V)

    def rebuild(self, st, J, lins, order, widen=3):
        harmless, ex, piv, mins, nd, nm, V = J
        fids, bids, nspec = order
        s = st.copy()
        syms = []
        s.sym = {}
        for m in mins:
            syms.append(s.newsym(m))
        new = []
        for c, d in ex:
            new.append((c, tuple(sorted((syms[j], v) for j, v in d.items()))))
        # facts: candidates from both sides over the new symbols, kept when they hold on both sides
        facts = []
        ne = []
        W = Variant()
        W.st, W.slots = st, lins
        W.piv, wex, wb = self.normal(lins)
        W.canon = (wex, wb)

        def back(side_lins, fct_new):
            # new symbol j  ->  side's slot piv[j]
            e = (fct_new[0], ())
            pos = {syms[j]: piv[j] for j in range(len(piv))}
            for t, co in fct_new[1]:
                e = ladd(e, side_lins[pos[t]], co)
            return e
        sides = [(V, st, lins), (W, V.st, V.slots)]
        if V.n >= widen:
            sides.pop()         # widening: only what was known before survives
        for side, other_st, other_lins in sides:
            for fct in side.st.facts:
                g = self.tr(fct, side, new)
                if g is None or not g[1]:
                    continue
                if other_st.nonneg(back(other_lins, g)) and g not in facts and not s_trivial(s, g):
                    facts.append(g)
            for fct in side.st.ne:
                g = self.tr(fct, side, new)
                if g is None or not g[1]:
                    continue
                e = back(other_lins, g)
                if e in other_st.ne or lmul(e, -1) in other_st.ne or other_st.nonneg((e[0] - 1, e[1])) or other_st.nonneg(ladd(lconst(-1), e, -1)):
                    if g not in ne:
                        ne.append(g)
        # lower bounds of the lengths of the tapes' cells and of the specification's registers
        for i in range(nspec):
            if not new[i][1]:
                continue
            a = V.st.lbx(V.slots[i])
            if a is None or a <= 0 and s.lb(new[i]) is not None:
                continue
            c = st.lbx(lins[i])
            if c is None:
                continue
            a = min(a, c)
            g = (new[i][0] - a, new[i][1])
            b = s.lb(g)
            if b is None or b < 0:
                if len(g[1]) == 1 and g[1][0][1] == 1:
                    s.sym[g[1][0][0]] = max(s.sym[g[1][0][0]] or 0, -g[0])
                elif g not in facts:
                    facts.append(g)
        # sums of two lengths
        if '$mark' in s.regs and V.n < widen:
            n = len(piv)
            for j in range(n):
                for k in range(j):
                    if s.sym[syms[j]] is None or s.sym[syms[k]] is None:
                        continue
                    a = V.st.lb(ladd(V.slots[piv[j]], V.slots[piv[k]]))
                    c = st.lb(ladd(lins[piv[j]], lins[piv[k]]))
                    if a is None or c is None:
                        continue
                    a = min(a, c)
                    if a > s.sym[syms[j]] + s.sym[syms[k]]:
                        facts.append((-a, tuple(sorted(((syms[j], 1), (syms[k], 1))))))
        s.facts = tuple(facts)
        s.ne = tuple(ne)
        it = iter(new)

        def dec(v):
            k = v[0]
            if k == 'c':
                return mklin(next(it)) if v[1] == 64 else v
            if k == 'l':
                return mklin(next(it))
            if k == 'p':
                return ('p', v[1], next(it))
            if k == 'q':
                l = next(it)
                return ('q', v[1], l, dec(v[3]))
            if k == 'agg':
                return ('agg', tuple(dec(x) for x in v[1]))
            return v
        # masks / domains
        for fid, i in fids.items():
            s.fv[fid] = nd[i]
        for tn in sorted(s.tapes):
            au, cells, mode = s.tapes[tn]
            out = []
            for c in cells:
                k = c[0]
                if k == 'V':
                    out.append(('V', dec(c[1])))
                elif k in 'BO':
                    nb = (k, c[1], c[2], c[3], next(it), nm[bids[c[1]]])
                    if len(c) > 6:
                        nb += (tuple(next(it) for _ in c[6]),)
                    out.append(nb)
                elif k == 'G':
                    out.append(('G', next(it)) + c[2:])
                elif k == 'I':
                    out.append(('I', next(it)) + c[2:])
                else:
                    out.append(c)
            s.tapes[tn] = (au, tuple(out), mode)
        for r in sorted(s.regs):
            s.regs[r] = dec(s.regs[r])
        fr2 = []
        for fr in s.frames:
            e = dict(fr[3])
            for k in sorted(e):
                e[k] = dec(e[k])
            fr2.append(fr[:3] + (e,) + fr[4:])
        s.frames = tuple(fr2)
        for k in sorted(s.env):
            s.env[k] = dec(s.env[k])
        for k in sorted(s.mem):
            w, v = s.mem[k]
            s.mem[k] = (w, dec(v))
        if V.st.imprecise and not s.imprecise:
            s.imprecise = V.st.imprecise
        return s, new, nd, nm


def s_trivial(s, g):
    b = s.lb(g)
    return b is not None and b >= 0


def lins_c(lins, st):
    """canonical renaming of symbols by first occurrence"""
    ren = {}
    out = []
    for c, ts in lins:
        r = []
        for s, k in ts:
            i = ren.get(s)
            if i is None:
                i = ren[s] = (len(ren), st.sym.get(s))
            r.append((i[0], k, i[1]))
        r.sort(key=lambda x: x[0])
        out.append((c, tuple(r)))
    return out


def facts_c(st, lins):
    if not st.facts and not st.ne:
        return ()
    ren = {}
    for c, ts in lins:
        for s, k in ts:
            if s not in ren:
                ren[s] = len(ren)

    def cn(f):
        return (f[0], tuple(sorted((ren.get(s, -s), c) for s, c in f[1])))
    return (frozenset(cn(f) for f in st.facts), frozenset(cn(f) for f in st.ne))
