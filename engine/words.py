"""Bounded abstract interpretation: inputs of fixed lengths whose bytes range over given classes; no joins, no widening.

Every result is recorded symbolically: a byte of a reported string is either a given input byte (by identity), a constant, or a
table function of one input byte.  One run therefore speaks about all strings of the class word."""
import re
import automata as A
import editing
import models
from absint import *
from exec import Machine

PCH = A.PCHAR1
CLASSES = {
    'x': A.mask('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$\'()*+,;'),
    's': A.mask('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'),
    'y': A.mask('ghijklmnopqrtuvwyzGHIJKLMNOPQRTUVWYZ'),     # no digit, not hexadecimal
    'z': A.mask('jklmnoqruyzJKLMNOQRUYZ'),                   # nor in the name of a known scheme
    'h': A.HEX,
    '9': A.mask('0123456789'),
    'A': A.ALL,
}


def word(t):
    """template -> masks; a backslash makes the next character literal"""
    out, i = [], 0
    while i < len(t):
        c = t[i]
        if c == '\\':
            i += 1
            out.append(1 << ord(t[i]))
        else:
            out.append(CLASSES.get(c) or 1 << ord(c))
        i += 1
    return tuple(out)


def chain(w):
    """automaton of the class word"""
    return A.Auto([[(m, i + 1, ())] for i, m in enumerate(w)] + [[]], 0, [len(w)])


class Out:
    """one outcome: how the function ended and what it reported"""

    def __init__(self, st, kind, recs, ins, lab):
        self.st, self.kind, self.recs, self.ins, self.lab = st, kind, recs, ins, lab

    def dom(self, ref):
        """bytes the given input byte may be on this path"""
        return self.st.fv[self.lab.cells[ref]] if ref in self.lab.cells else 0

    def sample(self):
        d = {}
        for nm, w in self.lab.words.items():
            d[nm] = bytes(A_sample(self.dom((nm, i))) for i in range(len(w)))
        return '; '.join('%s="%s"' % (k, ''.join(chr(c) if 32 <= c < 127 else '\\x%02x' % c for c in v)) for k, v in d.items())


def A_sample(m):
    return sample_byte(m) if m else 63


class Lab:
    def __init__(self, unit, entry, words, extra=(), alloc_fails=False, max_steps=400000, extra_models=()):
        """words: [(name, class word)], passed to the entry as pointer, length pairs; extra: further integer arguments"""
        self.words = dict(words)
        self.outs = []
        M = [(re.compile(p), h) for p, h in list(extra_models) + [
            (r'^@_Zn[wa]m$', editing.m_new),
            (r'^@_Zd[la]Pvm?$', editing.m_delete),
            (r'^@verif_str$', self.m_str),
            (r'^@verif_int$', self.m_int),
            (r'^@verif_ptr$', self.m_ptr),
            (r'^@verif_choose$', self.m_choose),
        ]] + models.BASE
        I = self.I = Machine(unit.mod, M, max_steps=max_steps, delay=1)
        I.split = True
        I.alloc_fails = alloc_fails
        I.keep_dead = False
        I.on_exit = self.exit
        st = State()
        st.regs['$rec'] = ('x', ())
        self.cells = {}
        self.ids = {}
        args = []
        auts = [(nm, chain(w)) for nm, w in words]
        I.au, offs = A.union([a for _, a in auts]) if auts else (A.Auto([[]], 0, [0]), [])
        for (nm, w), o in zip(words, offs):
            cs = []
            for i, m in enumerate(w):
                fid = fresh()
                st.fv[fid] = m
                cs.append(('C', fid, o + i, o + i + 1))
                self.cells[nm, i] = fid
                self.ids[fid] = (nm, i)
            st.tapes[nm] = (I.au, tuple(cs), 'ptr')
            args += [('p', nm, L0), C(64, len(w))]
        self.st0 = st
        I.start('@' + entry, args + list(extra), st)

    def run(self):
        self.I.run()
        return self.outs

    def exit(self, I, st, kind, v, ins):
        self.outs.append(Out(st, kind, st.regs['$rec'][1], ins, self))

    # ---- what the harness reports
    def rec(self, st, x):
        st.regs['$rec'] = ('x', st.regs['$rec'][1] + (x,))
        return ('ret', st, None)

    def key(self, st, v):
        if v[0] == 'c':
            return v[2]
        if v[0] == 'f':
            nm = self.ids.get(v[2])
            t = tuple(tlook(v[3], x) & 255 if x is not None and tlook(v[3], x) is not None else None for x in mbits(st.fv[v[2]]))
            if all(a == b for a, b in zip(mbits(st.fv[v[2]]), t)):
                return nm
            return ('fn', nm, v[3])
        return ('?',)

    def m_str(self, I, st, av, ins, name):
        n = aslin(av[2])
        tag = av[0][2]
        if n is None or n[1]:
            raise AnalysisBroken('reported string of unknown length')
        n = n[0]
        if n >= 1 << 20:
            I.event('oob-read', 'a reported string has a nonsensical length', st, ins)
            return []
        work = [(st, ())]
        p = av[1]
        for k in range(n):
            nxt = []
            for s, acc in work:
                s.regs['$acc'] = ('x', acc)
                for t, v in I.load(s, ('p', p[1], ladd(p[2], lconst(k))) if p[0] == 'p' else p, ('i', 8), ins):
                    nxt.append((t, t.regs.pop('$acc')[1] + (v,)))
            work = nxt
        return [self.rec(s, ('s', tag) + tuple(self.key(s, v) for v in acc)) for s, acc in work]

    def m_int(self, I, st, av, ins, name):
        v = av[1]
        l = aslin(v)
        if v[0] == 'c':
            x = sgn(v[2], v[1])
        elif l is not None and not l[1]:
            x = l[0]
        else:
            x = ('?',) + v
        return [self.rec(st, ('i', av[0][2], x))]

    def m_ptr(self, I, st, av, ins, name):
        return [self.rec(st, ('p', av[0][2], av[1][1:] if av[1][0] == 'p' else av[1]))]

    def m_choose(self, I, st, av, ins, name):
        """any of 0 .. n-1"""
        n = av[0][2]
        out = []
        for k in range(n):
            s = st.copy()
            out.append(('ret', s, C(32, k)))
        return out


def concrete(ref, o):
    """the byte an input position must hold on this path, or None"""
    m = o.dom(ref)
    return m.bit_length() - 1 if m and not m & (m - 1) else None


def same(o, got, want):
    """reported byte `got` (key) against the expected byte: a reference (name, position) or a number"""
    if got == want:
        return True
    if isinstance(want, tuple) and want[0] == 'pct':
        # the byte an escape stands for
        for a in mbits(o.dom(want[1])):
            for b in mbits(o.dom(want[2])):
                x = int(chr(a) + chr(b), 16)
                if isinstance(got, int):
                    g = got
                elif got[0] == 'fn' and got[1] in want[1:]:
                    g = tlook(got[2], a if got[1] == want[1] else b)
                else:
                    return False
                if g is None or g & 255 != x:
                    return False
        return True
    if isinstance(want, tuple) and want[0] == 'lower':
        f = lambda b: b + 32 if 65 <= b <= 90 else b
        d = mbits(o.dom(want[1]))
        if isinstance(got, int):
            return all(f(b) == got for b in d)
        if got == want[1]:
            return all(f(b) == b for b in d)
        return got[0] == 'fn' and got[1] == want[1] and all(tlook(got[2], b) is not None and tlook(got[2], b) & 255 == f(b) for b in d)
    if isinstance(want, tuple) and want[0] in ('hi', 'lo'):
        d = o.dom(want[1])
        f = lambda b: ord('0123456789ABCDEF'[b >> 4 if want[0] == 'hi' else b & 15])
        if isinstance(got, int):
            return bool(d) and all(f(b) == got for b in mbits(d))
        if got[0] == 'fn' and got[1] == want[1]:
            return all(tlook(got[2], b) is not None and tlook(got[2], b) & 255 == f(b) for b in mbits(d))
        return False
    g = got if isinstance(got, int) else concrete(got, o) if isinstance(got, tuple) and len(got) == 2 and got[0] != 'fn' else None
    w = want if isinstance(want, int) else concrete(want, o)
    return g is not None and g == w


def show(o, ks):
    r = ''
    for k in ks:
        if isinstance(k, int):
            r += chr(k) if 32 <= k < 127 else '\\x%02x' % k
        elif k[0] == 'fn' and k[1] in o.lab.cells and o.dom(k[1]):
            c = tlook(k[2], A_sample(o.dom(k[1])))
            r += chr(c & 255) if c is not None and 32 <= c & 255 < 127 else '<?>'
        elif k[0] == 'pct':
            b = int(chr(A_sample(o.dom(k[1]))) + chr(A_sample(o.dom(k[2]))), 16)
            r += chr(b) if 32 <= b < 127 else '\\x%02x' % b
        elif k[0] == 'lower':
            r += chr(A_sample(o.dom(k[1]))).lower()
        elif k[0] in ('hi', 'lo'):
            b = A_sample(o.dom(k[1]))
            r += '0123456789ABCDEF'[b >> 4 if k[0] == 'hi' else b & 15]
        elif k[0] in ('fn', '?'):
            r += '<?>'
        else:
            r += chr(A_sample(o.dom(k)))
    return '"' + r + '"'


def differ(o, recs, want):
    """first difference between the reported and the expected records, as text, or None"""
    for i in range(max(len(recs), len(want))):
        if i >= len(want):
            return 'reports one thing too many: %s' % rtext(o, recs[i])
        w = want[i]
        if i >= len(recs):
            return 'does not report %s' % rtext(o, w)
        g = recs[i]
        if g[:2] != w[:2] or len(g) != len(w) or (g[0] == 's' and not all(same(o, a, b) for a, b in zip(g[2:], w[2:]))) or (g[0] != 's' and g != w):
            return '%s instead of %s' % (rtext(o, g), rtext(o, w))
    return None


TAGS = {}


def rtext(o, r):
    t = TAGS.get(r[1], 'item %s' % (r[1],))
    return t + ' ' + (show(o, r[2:]) if r[0] == 's' else str(r[2]))
