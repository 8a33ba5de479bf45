"""Abstract interpreter over LLVM IR.

Domain (per abstract state)
  * integers: constants, finite-variable functions ("the byte at this tape cell, pushed through this table"),
    affine expressions over symbols (Karr-style affine equalities, with lower bounds and a few recorded
    inequalities), intervals, top;
  * strings ("tapes"): a sequence of cells - single bytes with a byte set, blobs of unbounded symbolic length whose
    content is the set of words driving a reference automaton from state q into a set R over a byte set, garbage of
    symbolic length - so the program is analysed in product with the automaton of the reference grammar;
  * flat memory for scalars.
Loops are solved by fixpoint iteration: at loop heads blobs are folded, states of equal shape are joined (affine-hull
join), everything else is trace partitioned.  Nothing is executed and no solver is called.
"""
import heapq
import itertools
from fractions import Fraction
import ir
import linear
from automata import ALL

_ctr = itertools.count(1)


def fresh():
    return next(_ctr)


# ------------------------------------------------------------------ affine expressions: (const, ((sym,coef),...))
HUGE = 1 << 56      # lengths of real objects stay below 2^48: a constant this large decides every comparison
L0 = (0, ())
L1 = (1, ())


def lconst(c):
    return (c, ())


def lsym(s):
    return (0, ((s, 1),))


def ladd(a, b, k=1):
    """a + k*b"""
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    if not a[1] and k == 1:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, c in b[1]:
        v = d.get(s, 0) + k * c
        if v:
            d[s] = v
        else:
            d.pop(s, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def lsub(a, b):
    return ladd(a, b, -1)


def lmul(a, k):
    if k == 0:
        return L0
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def lsubst(a, s, e):
    for t, c in a[1]:
        if t == s:
            r = ladd((a[0], tuple(x for x in a[1] if x[0] != s)), e, c)
            if not r[1] and isinstance(r[0], Fraction):
                if r[0].denominator != 1:
                    raise Infeasible        # lengths are integers
                r = (r[0].numerator, ())
            return r
    return a


def lstr(a):
    r = []
    for s, c in a[1]:
        r.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + 'n%s' % s)
    if a[0] or not r:
        r.append(str(a[0]))
    return '+'.join(r).replace('+-', '-')


# ------------------------------------------------------------------ interned tables
_TAB = {}
_TABS = []


def intern_tab(t):
    k = t if isinstance(t, tuple) else ('d',) + tuple(sorted(t.items()))
    i = _TAB.get(k)
    if i is None:
        i = _TAB[k] = len(_TABS)
        _TABS.append(t)
    return i


ID8 = intern_tab(tuple(range(256)))   # identity on bytes (unsigned)
IDD = -1                              # identity on data variables
_opmemo = {}


def tlook(tid, v):
    if tid == IDD:
        return v
    return _TABS[tid][v]


def bits(m):
    r = []
    i = 0
    while m:
        b = m & -m
        r.append(b.bit_length() - 1)
        m ^= b
    return r


_bitsmemo = {}


def mbits(m):
    r = _bitsmemo.get(m)
    if r is None:
        r = _bitsmemo[m] = tuple(bits(m))
    return r


def C(w, n):
    return ('c', w, n & ((1 << w) - 1))


TRUE = ('c', 1, 1)
FALSE = ('c', 1, 0)
UNDEF = ('u',)
NULL = ('c', 64, 0)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Infeasible(Exception):
    pass


class AnalysisBroken(Exception):
    """the analysis met something it cannot represent: no verdict"""


class State:
    __slots__ = ('env', 'frames', 'mem', 'tapes', 'fv', 'sym', 'facts', 'ne', 'regs', 'imprecise', 'trace', 'dead', 'held')

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.frames = self.frames
        s.mem = dict(self.mem)
        s.tapes = dict(self.tapes)
        s.fv = dict(self.fv)
        s.sym = dict(self.sym)
        s.facts = self.facts
        s.ne = self.ne
        s.regs = dict(self.regs)
        s.imprecise = self.imprecise
        s.trace = self.trace
        s.dead = self.dead
        s.held = self.held
        return s

    def __init__(self):
        self.env = {}
        self.frames = ()
        self.mem = {}
        self.tapes = {}
        self.fv = {}
        self.sym = {}
        self.facts = ()
        self.ne = ()
        self.regs = {}
        self.imprecise = None
        self.trace = None
        self.dead = frozenset()
        self.held = None

    def note(self, x):
        self.trace = (self.trace, x)

    def notes(self, n=40):
        r = []
        t = self.trace
        while t is not None and len(r) < n:
            r.append(t[1])
            t = t[0]
        r.reverse()
        return r

    # ---- symbols
    def newsym(self, lo=0):
        s = fresh()
        self.sym[s] = lo
        return s

    def lb(self, lin):
        r = lin[0]
        for s, c in lin[1]:
            if c < 0:
                return None
            m = self.sym.get(s, 0)
            if m is None:
                return None
            r += c * m
        if isinstance(r, Fraction):
            r = -((-r.numerator) // r.denominator)
        return r

    def lbx(self, lin):
        """lower bound, using the recorded inequalities too"""
        b = self.lb(lin)
        if b is not None:
            return b
        for m in (4, 3, 2, 1, 0):
            if self.nonneg((lin[0] - m, lin[1])):
                return m
        for m in (1, 0):
            if self.entails((lin[0] - m, lin[1])):
                return m
        return None

    def entails(self, lin):
        """lin >= 0, decided with every inequality known (recorded ones, lengths of cells)"""
        if self.nonneg(lin):
            return True
        cs = linear.constraints(self, clen, minlen)
        return linear.empty(cs + [(-lin[0] - 1, {s: -c for s, c in lin[1]})])

    def nonneg(self, lin, depth=2):
        """provably lin >= 0"""
        if lin[0] >= HUGE or lin[0] <= -HUGE:
            return lin[0] > 0
        b = self.lb(lin)
        if b is not None and b >= 0:
            return True
        if depth and self.facts and lin[1]:
            for f in self.facts:
                # only useful when the fact cancels some negative coefficient
                if any(c < 0 and dict(f[1]).get(s, 0) < 0 for s, c in lin[1]):
                    if self.nonneg(lsub(lin, f), depth - 1):
                        return True
        return False

    def subst(self, s, e):
        """replace symbol s by affine e everywhere; raises Infeasible"""
        zero = []
        self.sym.pop(s, None)

        def val(v):
            k = v[0]
            if k == 'l':
                l = lsubst(v[1], s, e)
                return v if l is v[1] else mklin(l)
            if k == 'p':
                l = lsubst(v[2], s, e)
                return v if l is v[2] else ('p', v[1], l)
            if k == 'q':
                l = lsubst(v[2], s, e)
                return v if l is v[2] else ('q', v[1], l, v[3])
            if k == 'pd':
                return ('pd', v[1], lsubst(v[2], s, e), v[3])
            if k == 'agg':
                return ('agg', tuple(val(x) for x in v[1]))
            return v
        self.map_vals(val)
        for nm, (au, cells, mode) in list(self.tapes.items()):
            ch = False
            out = []
            for c in cells:
                if c[0] in 'BO':
                    l = lsubst(c[4], s, e)
                    if l is not c[4]:
                        ch = True
                        if not l[1]:
                            if l[0] < 0:
                                raise Infeasible
                            if l[0] == 0:
                                if not self.end_blob(au, c):
                                    raise Infeasible
                                if len(c) > 6:
                                    zero += [lsubst(w, s, e) for w in c[6]]
                                continue
                            if not au.can(c[2], c[3], c[5], l[0], exact=True):
                                raise Infeasible
                        c = c[:4] + (l,) + c[5:]
                    if len(c) > 6:
                        w = tuple(lsubst(x, s, e) for x in c[6])
                        if w != c[6]:
                            ch = True
                            if any(not x[1] and x[0] < 0 for x in w):
                                raise Infeasible
                            c = c[:6] + (w,)
                elif c[0] == 'G':
                    l = lsubst(c[1], s, e)
                    if l is not c[1]:
                        ch = True
                        if not l[1]:
                            if l[0] < 0:
                                raise Infeasible
                            if l[0] == 0:
                                continue
                        c = ('G', l) + c[2:]
                elif c[0] == 'I':
                    l = lsubst(c[1], s, e)
                    if l is not c[1]:
                        ch = True
                        c = ('I', l) + c[2:]
                out.append(c)
            if ch:
                self.tapes[nm] = (au, tuple(out), mode)
        if self.facts:
            fs = []
            for f in self.facts:
                g = lsubst(f, s, e)
                if g is not f:
                    if not g[1]:
                        if g[0] < 0:
                            raise Infeasible
                        continue
                    b = self.lb(lmul(g, -1))
                    if b is not None and b > 0:
                        raise Infeasible
                fs.append(g)
            self.facts = tuple(fs)
        if self.ne:
            fs = []
            for f in self.ne:
                g = lsubst(f, s, e)
                if g == L0:
                    raise Infeasible
                if g[1]:
                    fs.append(g)
            self.ne = tuple(fs)
        for w in zero:
            self.require_zero(w)

    def require_zero(self, w):
        """w == 0 holds: eliminate a symbol; raises Infeasible"""
        for _ in range(40):
            if not w[1]:
                if w[0]:
                    raise Infeasible
                return
            s, c = next(((s, c) for s, c in w[1] if abs(c) == 1 and s in self.sym), (None, None))
            if s is None:
                return
            e = lmul((w[0], tuple(x for x in w[1] if x[0] != s)), -c)
            m = self.sym[s]
            self.subst(s, e)
            if m is not None:
                self.require_nonneg((e[0] - m, e[1]))
            return

    def tighten(self):
        """inequalities that pin symbols to their lower bounds become equalities; raises Infeasible"""
        again = True
        while again and self.facts:
            again = False
            for f in self.facts:
                if all(c < 0 and self.sym.get(s) is not None for s, c in f[1]):
                    b = self.lb(lmul(f, -1))
                    if b > 0:
                        raise Infeasible
                    if b == 0:
                        for s, c in f[1]:
                            if s in self.sym:
                                self.subst(s, lconst(self.sym[s]))
                        again = True
                        break

    def require_nonneg(self, f):
        if self.nonneg(f):
            return
        if not f[1] or self.nonneg((-f[0] - 1, tuple((s, -c) for s, c in f[1]))):
            raise Infeasible
        if len(f[1]) == 1 and f[1][0][1] == 1 and self.sym.get(f[1][0][0]) is not None:
            self.set_min(f[1][0][0], -f[0])
            return
        self.facts = self.facts + (f,)

    def end_blob(self, au, c):
        """an unread/read blob of length zero: allowed?"""
        return c[2] in c[3]

    def map_vals(self, fn):
        for d in (self.env, self.mem, self.regs):
            for k, v in d.items():
                if d is self.mem:
                    x = v[1]
                    if x[0] in 'lpqfa':
                        y = fn(x)
                        if y is not x:
                            d[k] = (v[0], y)
                else:
                    if v[0] in 'lpqfa':
                        y = fn(v)
                        if y is not v:
                            d[k] = y
        if self.frames:
            fr = []
            for f in self.frames:
                e = f[3]
                ne = None
                for k, v in e.items():
                    if v[0] in 'lpqfa':
                        y = fn(v)
                        if y is not v:
                            if ne is None:
                                ne = dict(e)
                            ne[k] = y
                fr.append(f if ne is None else f[:3] + (ne,) + f[4:])
            self.frames = tuple(fr)

    def all_vals(self):
        for v in self.env.values():
            yield v
        for v in self.mem.values():
            yield v[1]
        for f in self.frames:
            yield from f[3].values()

    # ---- bounds on a symbol
    def set_min(self, s, m):
        if self.sym[s] is not None and self.sym[s] >= m:
            return
        self.sym[s] = m
        for nm, (au, cells, mode) in self.tapes.items():
            for c in cells:
                if c[0] in 'BO' and any(t == s for t, _ in c[4][1]):
                    b = self.lb(c[4])
                    if b is not None and b > 0 and not au.can(c[2], c[3], c[5], b):
                        raise Infeasible

    # ---- finite variables
    def dom(self, fid):
        d = self.fv[fid]
        return mbits(d) if isinstance(d, int) else d

    def image(self, v):
        t = v[3]
        return set(tlook(t, x) for x in self.dom(v[2]))

    def restrict(self, fid, vals):
        d = self.fv[fid]
        if isinstance(d, int):
            m = 0
            for x in vals:
                m |= 1 << x
            m &= d
            if not m:
                raise Infeasible
            self.fv[fid] = m
        else:
            n = d & frozenset(vals)
            if not n:
                raise Infeasible
            self.fv[fid] = n


def mklin(l):
    if not l[1]:
        if isinstance(l[0], Fraction):
            if l[0].denominator != 1:
                raise Infeasible        # lengths are integers
            l = (l[0].numerator, ())
        return ('c', 64, l[0] & ((1 << 64) - 1))
    return ('l', l)


def aslin(v):
    """64-bit value as affine expression (signed view), or None"""
    if v[0] == 'l':
        return v[1]
    if v[0] == 'c':
        return (sgn(v[2], v[1]) if v[1] == 64 else v[2], ())
    return None


def fn(st, w, fid, tid):
    """normalised function value"""
    d = st.fv[fid]
    if tid != IDD:
        t = _TABS[tid]
        it = iter(mbits(d) if isinstance(d, int) else d)
        x = t[next(it)]
        for y in it:
            if t[y] != x:
                return ('f', w, fid, tid)
        return C(w, x) if x is not None else ('t', w)
    if len(d) == 1:
        return C(w, next(iter(d)))
    return ('f', w, fid, tid)


def datavar(st, w, vals):
    vals = frozenset(vals)
    if len(vals) == 1:
        return C(w, next(iter(vals)))
    if len(vals) > 70000:
        return ('t', w)
    f = fresh()
    st.fv[f] = vals
    return ('f', w, f, IDD)


def _bin(op, w, a, b):
    M = (1 << w) - 1
    if op == 'add':
        return (a + b) & M
    if op == 'sub':
        return (a - b) & M
    if op == 'mul':
        return (a * b) & M
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return (a << b) & M if b < w else 0
    if op == 'lshr':
        return a >> b if b < w else 0
    if op == 'ashr':
        return (sgn(a, w) >> min(b, w - 1)) & M
    if op == 'udiv':
        return a // b if b else 0
    if op == 'urem':
        return a % b if b else 0
    sa, sb = sgn(a, w), sgn(b, w)
    if op == 'sdiv':
        if sb == 0:
            return 0
        q = abs(sa) // abs(sb)
        return (q if (sa < 0) == (sb < 0) else -q) & M
    if op == 'srem':
        if sb == 0:
            return 0
        r = abs(sa) % abs(sb)
        return (-r if sa < 0 else r) & M
    raise AnalysisBroken(op)


def _cmp(pred, w, a, b):
    if pred == 'eq':
        return a == b
    if pred == 'ne':
        return a != b
    if pred[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    p = pred[1:]
    return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b


def map_fn(st, v, w, f, key):
    """apply python function f to a 'f' value, memoised by key"""
    tid = v[3]
    k = (key, tid, w)
    d = st.fv[v[2]]
    if isinstance(d, int):
        r = _opmemo.get(k)
        if r is None:
            t = _TABS[tid]
            r = _opmemo[k] = intern_tab(tuple(None if x is None else f(x) for x in t))
        return fn(st, w, v[2], r)
    r = intern_tab({x: f(tlook(tid, x)) for x in d})
    return fn(st, w, v[2], r)


def binop(st, op, w, a, b):
    ka, kb = a[0], b[0]
    if ka == 'c' and kb == 'c':
        return ('c', w, _bin(op, w, a[2], b[2]))
    if ka == 'u' or kb == 'u':
        return ('t', w)
    # algebraic identities
    if kb == 'c':
        n = b[2]
        if n == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if n == 1 and op in ('mul', 'udiv', 'sdiv'):
            return a
        if op in ('mul', 'and') and n == 0:
            return C(w, 0)
    if ka == 'c':
        n = a[2]
        if n == 0 and op in ('add', 'or', 'xor'):
            return b
        if n == 1 and op == 'mul':
            return b
        if op in ('mul', 'and') and n == 0:
            return C(w, 0)
    # pointers as integers
    if ka == 'p' and kb == 'c' and op == 'udiv' and b[2] > 1:
        return ('pd', a[1], a[2], b[2])
    if op == 'mul' and (ka == 'pd' and kb == 'c' and a[3] == b[2] or kb == 'pd' and ka == 'c' and b[3] == a[2]):
        x, c = (a, b) if ka == 'pd' else (b, a)
        return floor_ptr(st, ('p', x[1], x[2]), c[2])
    if ka == 'pd' or kb == 'pd':
        return ('t', w)
    if op == 'and' and (ka == 'p' and kb == 'c' or kb == 'p' and ka == 'c'):
        x, c = (a, b[2]) if ka == 'p' else (b, a[2])
        m = (1 << w) - c
        if 1 < m <= 4096 and not m & (m - 1):
            return floor_ptr(st, x, m)
        if c in (1, 3, 7, 15, 31):
            f = floor_ptr(st, x, c + 1)
            return mklin(lsub(x[2], f[2]))
        return ('t', w)
    if op == 'urem' and ka == 'p' and kb == 'c' and b[2] > 1:
        return mklin(lsub(a[2], floor_ptr(st, a, b[2])[2]))
    if ka == 'p' or kb == 'p':
        if op == 'sub' and ka == 'p' and kb == 'p' and a[1] == b[1]:
            return mklin(lsub(a[2], b[2]))
        if op in ('add', 'sub') and ka == 'p':
            l = aslin(b)
            if l is not None:
                return ('p', a[1], ladd(a[2], l, 1 if op == 'add' else -1))
        if op == 'add' and kb == 'p':
            l = aslin(a)
            if l is not None:
                return ('p', b[1], ladd(b[2], l))
        return ('t', w)
    if w == 64 and (ka == 'l' or kb == 'l'):
        la, lb = aslin(a), aslin(b)
        if la is not None and lb is not None:
            if op == 'add':
                return mklin(ladd(la, lb))
            if op == 'sub':
                return mklin(lsub(la, lb))
            if op == 'mul' and not lb[1]:
                return mklin(lmul(la, lb[0]))
            if op == 'mul' and not la[1]:
                return mklin(lmul(lb, la[0]))
            if op == 'shl' and not lb[1] and lb[0] < 8:
                return mklin(lmul(la, 1 << lb[0]))
        return ('t', w)
    if ka == 'f' and kb == 'c':
        n = b[2]
        return map_fn(st, a, w, lambda x: _bin(op, w, x, n), (op, n, 0))
    if ka == 'c' and kb == 'f':
        n = a[2]
        return map_fn(st, b, w, lambda x: _bin(op, w, n, x), (op, n, 1))
    if ka == 'f' and kb == 'f':
        if a[2] == b[2]:
            d = st.dom(a[2])
            if isinstance(st.fv[a[2]], int):
                ta, tb = _TABS[a[3]], _TABS[b[3]]
                t = intern_tab(tuple(None if ta[i] is None or tb[i] is None else _bin(op, w, ta[i], tb[i]) for i in range(256)))
            else:
                t = intern_tab({x: _bin(op, w, tlook(a[3], x), tlook(b[3], x)) for x in d})
            return fn(st, w, a[2], t)
        ia, ib = st.image(a), st.image(b)
        if len(ia) * len(ib) > 1200000:
            return ('t', w)
        return datavar(st, w, {_bin(op, w, x, y) for x in ia for y in ib})
    if ka == 'r' or kb == 'r':
        def iv(v):
            if v[0] == 'r':
                return v[2], v[3]
            if v[0] == 'c':
                return v[2], v[2]
            if v[0] == 'f':
                im = st.image(v)
                return min(im), max(im)
            return None
        x, y = iv(a), iv(b)
        if x and y:
            M = (1 << w) - 1
            r = None
            if op == 'add' and x[1] + y[1] <= M:
                r = (x[0] + y[0], x[1] + y[1])
            elif op == 'sub' and x[0] - y[1] >= 0:
                r = (x[0] - y[1], x[1] - y[0])
            elif op == 'mul' and x[1] * y[1] <= M:
                r = (x[0] * y[0], x[1] * y[1])
            elif op in ('udiv',) and y[0] == y[1] and y[0]:
                r = (x[0] // y[0], x[1] // y[0])
            elif op in ('urem',) and y[0] == y[1] and y[0]:
                if x[0] // y[0] == x[1] // y[0]:
                    r = (x[0] % y[0], x[1] % y[0])
                else:
                    r = (0, y[0] - 1)
            elif op == 'lshr' and y[0] == y[1]:
                r = (x[0] >> y[0], x[1] >> y[0])
            elif op == 'and' and y[0] == y[1]:
                r = (0, min(x[1], y[0]))
            if r:
                return mkint(st, w, r)
    return ('t', w)


RESIDUE = {}    # tape -> its address modulo 4096, where the analysis fixes it


def floor_ptr(st, p, m):
    """the pointer rounded down to a multiple of m: exact where the address is known modulo m, else by an unknown number of bytes 0 .. m-1"""
    if not p[2][1] and p[1] in RESIDUE:
        return ('p', p[1], lconst(p[2][0] - (RESIDUE[p[1]] + p[2][0]) % m))
    k = '$pad/%d/%s/%r' % (m, p[1], p[2])
    s = st.regs.get(k)
    if s is None:
        pad = st.newsym(0)
        st.facts = st.facts + ((m - 1, ((pad, -1),)),)
        s = st.regs[k] = ('p', p[1], lsub(p[2], (0, ((pad, 1),))))
    return s


def mkint(st, w, r):
    if r[0] == r[1]:
        return C(w, r[0])
    if r[1] - r[0] < 300:
        return datavar(st, w, range(r[0], r[1] + 1))
    return ('r', w, r[0], r[1])


def cast(st, op, v, sw, dw):
    k = v[0]
    if op in ('ptrtoint', 'inttoptr', 'bitcast'):
        if op == 'ptrtoint' and dw != 64 and k == 'p':
            return ('t', dw)
        return v
    if k == 'c':
        n = v[2]
        if op == 'sext':
            n = sgn(n, sw)
        return C(dw, n)
    if k == 'f':
        if op == 'sext':
            return map_fn(st, v, dw, lambda x: sgn(x, sw) & ((1 << dw) - 1), ('sext', sw))
        if op == 'trunc':
            return map_fn(st, v, dw, lambda x: x & ((1 << dw) - 1), ('trunc', dw))
        return ('f', dw, v[2], v[3])
    if k == 'r':
        lo, hi = v[2], v[3]
        if op == 'zext' or op == 'sext' and hi < (1 << (sw - 1)):
            return ('r', dw, lo, hi)
        if op == 'trunc' and hi < (1 << dw):
            return ('r', dw, lo, hi)
        return ('t', dw)
    if k == 'u':
        return UNDEF
    if k == 'l' and op == 'trunc':
        return ('t', dw)
    if k == 'l':
        return v
    return ('t', dw)


# ------------------------------------------------------------------ splitting on affine comparisons
def split_exact(st, s):
    """[(state with s == min), (state with s >= min+1)]"""
    m = st.sym[s]
    out = []
    a = st.copy()
    try:
        a.subst(s, lconst(m))
        out.append((a, True))
    except Infeasible:
        pass
    try:
        st.set_min(s, m + 1)
        out.append((st, False))
    except Infeasible:
        pass
    return out


def split_neg(st, lin, depth=0):
    """-> [(state, lin < 0 ?)]"""
    if not lin[1] or lin[0] >= HUGE or lin[0] <= -HUGE:
        return [(st, lin[0] < 0)]
    if st.nonneg(lin):
        return [(st, False)]
    neg1 = (-lin[0] - 1, tuple((s, -c) for s, c in lin[1]))
    if st.nonneg(neg1):
        return [(st, True)]
    pos = all(c > 0 and st.sym.get(s) is not None for s, c in lin[1])
    neg = all(c < 0 and st.sym.get(s) is not None for s, c in lin[1])
    if pos and -st.lb(lin) <= 8 and depth < 40:
        s = lin[1][0][0]
        m0 = st.sym[s]
        out = []
        for st2, ex in split_exact(st, s):
            out += split_neg(st2, lsubst(lin, s, lconst(m0)) if ex else lin, depth + 1)
        return out
    if neg and -st.lb(neg1) <= 8 and depth < 40:
        return [(a, not b) for a, b in split_neg(st, neg1, depth + 1)]
    out = []
    a = st.copy()
    a.facts = a.facts + (neg1,)
    if consistent(a):
        out.append((a, True))
    st.facts = st.facts + (lin,)
    if consistent(st):
        out.append((st, False))
    return out


def consistent(st):
    fs = st.facts
    for f in fs[-1:]:
        n = (-f[0] - 1, tuple((s, -c) for s, c in f[1]))
        save = st.facts
        st.facts = fs[:-1]
        bad = st.nonneg(n)
        st.facts = save
        if bad:
            return False
        # facts f >= 0 and -f >= 0 known (so f == 0) but f known nonzero
        if st.ne:
            if (f in st.ne or lmul(f, -1) in st.ne):
                m = lmul(f, -1)
                st.facts = fs[:-1]
                z = st.nonneg(m)
                st.facts = save
                if z:
                    return False
                # strengthen f >= 1
                st.facts = fs[:-1] + ((f[0] - 1, f[1]),)
                return consistent2(st)
    return True


def consistent2(st):
    fs = st.facts
    f = fs[-1]
    n = (-f[0] - 1, tuple((s, -c) for s, c in f[1]))
    save = st.facts
    st.facts = fs[:-1]
    bad = st.nonneg(n)
    st.facts = save
    return not bad


def split_zero(st, lin, depth=0):
    """-> [(state, lin == 0 ?)]"""
    if not lin[1] or lin[0] >= HUGE or lin[0] <= -HUGE:
        return [(st, lin[0] == 0)]
    ml = lmul(lin, -1)
    if lin in st.ne or ml in st.ne:
        return [(st, False)]
    if st.nonneg((lin[0] - 1, lin[1])) or st.nonneg((ml[0] - 1, ml[1])):
        return [(st, False)]
    pos = all(c > 0 and st.sym.get(s) is not None for s, c in lin[1])
    neg = all(c < 0 and st.sym.get(s) is not None for s, c in lin[1])
    if neg:
        lin, ml = ml, lin
        pos = True
    if pos and -st.lb(lin) <= 8 and depth < 40:
        s = lin[1][0][0]
        m0 = st.sym[s]
        out = []
        for st2, ex in split_exact(st, s):
            if ex:
                out += split_zero(st2, lsubst(lin, s, lconst(m0)), depth + 1)
            else:
                out += split_zero(st2, lin, depth + 1)
        return out
    # mixed signs: fork
    out = []
    a = st.copy()
    piv = None
    for s, c in lin[1]:
        if abs(c) == 1:
            piv = (s, c)
            # prefer a symbol whose lower bound is implied
            rest = (lin[0], tuple(x for x in lin[1] if x[0] != s))
            e = lmul(rest, -c)
            if a.sym.get(s) is None or a.nonneg((e[0] - (a.sym.get(s) or 0), e[1])):
                break
    if piv is None:
        a.imprecise = a.imprecise or 'non-unit equality'
        out.append((a, True))
    else:
        s, c = piv
        rest = (lin[0], tuple(x for x in lin[1] if x[0] != s))
        e = lmul(rest, -c)
        m = a.sym.get(s)
        try:
            a.subst(s, e)
            if m is not None:
                f = (e[0] - m, e[1])
                if not a.nonneg(f):
                    a.facts = a.facts + (f,)
                    if not consistent(a):
                        raise Infeasible
            out.append((a, True))
        except Infeasible:
            pass
    st.ne = st.ne + (lin,)
    # tighten facts lin>=0 / -lin>=0 to strict
    fs = []
    for f in st.facts:
        if f == lin or f == ml:
            f = (f[0] - 1, f[1])
        fs.append(f)
    st.facts = tuple(fs)
    out.append((st, False))
    return out


# ------------------------------------------------------------------ tapes
def clen(c):
    k = c[0]
    if k == 'C' or k == 'V':
        return L1
    if k in 'BO':
        return c[4]
    return c[1]


def bounds(cells):
    b = L0
    r = [b]
    for c in cells:
        b = ladd(b, clen(c))
        r.append(b)
    return r


def total(cells):
    b = L0
    for c in cells:
        b = ladd(b, clen(c))
    return b


def minlen(au, c):
    """shortest content of a cell"""
    if c[0] in 'BO':
        return au.minword(c[2], c[3], c[5])
    return 1 if c[0] in 'CV' else 0


def vacuous(st):
    """provably no concrete state is described"""
    return linear.state_empty(st, clen, minlen)


def put_cell(st, bid, new):
    """replace every occurrence of blob bid by the cells `new` (content identity is preserved)"""
    for nm, (au, cells, mode) in list(st.tapes.items()):
        if any(c[0] in 'BO' and c[1] == bid for c in cells):
            out = []
            for c in cells:
                if c[0] in 'BO' and c[1] == bid:
                    out += new
                else:
                    out.append(c)
            st.tapes[nm] = (au, tuple(out), mode)


def show_mask(m):
    m &= ALL
    n = bin(m).count('1')
    if m == ALL:
        return 'any'
    if n > 128:
        return 'not ' + show_mask(ALL & ~m)
    s = ''
    for b in mbits(m):
        s += chr(b) if 33 <= b < 127 else '\\x%02x' % b
        if len(s) > 60:
            return '[' + s + '..]'
    return '[' + s + ']'


def sample_byte(m):
    for c in b'a1A:/.@?#%[]-':
        if m >> c & 1:
            return c
    for c in range(33, 127):
        if m >> c & 1:
            return c
    return mbits(m)[0]


def sample_word(au, q, R, m, k=0, exact=False):
    """shortest word of length >= k from q into R"""
    from collections import deque
    seen = {(q, 0)}
    dq = deque([(q, 0, b'')])
    while dq:
        x, n, w = dq.popleft()
        if x in R and (n >= k):
            return w
        for tr in au.out(x, m):
            mm = tr[0]
            if mm:
                y = (tr[1], min(n + 1, k))
                if y not in seen:
                    seen.add(y)
                    dq.append((tr[1], min(n + 1, k), w + bytes([sample_byte(mm)])))
    return b'?'


def cover(au, q, R, m, pairs=True):
    """words over m from q into R that together use every transition (and every two in a row)"""
    memo = au.__dict__.setdefault('_cover', {})
    key = (q, R, m, pairs)
    r = memo.get(key)
    if r is not None:
        return r
    live = au.coreach(R, m)
    pre = {q: b''}
    todo = [q]
    edges = []
    for x in todo:
        for tr in au.out(x, m):
            if tr[0] and tr[1] in live:
                edges.append((x, tr[0], tr[1]))
                if tr[1] not in pre:
                    pre[tr[1]] = pre[x] + bytes([sample_byte(tr[0])])
                    todo.append(tr[1])
    tail = {x: sample_word(au, x, R, m) for x in pre if x in live}
    ws = set()
    for x, b, y in edges:
        w = pre[x] + bytes([sample_byte(b)])
        ws.add(w + tail[y])
        for x2, b2, y2 in edges if pairs else ():
            if x2 == y:
                ws.add(w + bytes([sample_byte(b2)]) + tail[y2])
    r = memo[key] = sorted(ws, key=lambda w: (len(w), w))
    return r


def samples(st, tn, limit=60):
    """several words the tape may hold: the shortest, then each blob in turn covering its transitions"""
    au, cells, mode = st.tapes[tn]
    base = []
    for i in range(len(cells)):
        t = st.copy()
        t.tapes[tn] = (au, cells[i:i + 1], mode)
        base.append(sample_tape(t, tn))
    out = [b''.join(base)]
    vs = []
    for i, c in enumerate(cells):
        if c[0] in 'BO':
            lo = max(st.lb(c[4]) or 0, 0)
            ex = c[4][0] if not c[4][1] else None
            ws = [w for w in cover(au, c[2], frozenset(c[3]), c[5]) if len(w) >= lo and (ex is None or len(w) == ex)]
            vs.append([b''.join(base[:i] + [w] + base[i + 1:]) for w in ws])
    k = 0
    while any(len(v) > k for v in vs) and len(out) < limit:
        for v in vs:
            if len(v) > k and v[k] not in out:
                out.append(v[k])
        k += 1
    return out


def witnesses(st, tapes=('P', 'S'), limit=60):
    """[((tape, word), ...)]: several contents of the input tapes"""
    tapes = [t for t in tapes if t in st.tapes]
    ws = [samples(st, t, limit) for t in tapes]
    out = [tuple((t, w[0]) for t, w in zip(tapes, ws))]
    k = 1
    while any(len(w) > k for w in ws) and len(out) < limit:
        for i, w in enumerate(ws):
            if len(w) > k:
                out.append(tuple((t, w[k] if i == j else x[0]) for j, (t, x) in enumerate(zip(tapes, ws))))
        k += 1
    return out


def sample_tape(st, tn):
    au, cells, mode = st.tapes[tn]
    w = b''
    for c in cells:
        if c[0] == 'C':
            d = st.fv.get(c[1], ALL)
            w += bytes([sample_byte(d) if isinstance(d, int) else min(d)])
        elif c[0] == 'V':
            w += bytes([c[1][2] & 255]) if c[1][0] == 'c' else b'?'
        elif c[0] in 'BO':
            b = st.lb(c[4])
            w += sample_word(au, c[2], c[3], c[5], max(b or 0, 0))
        elif c[0] == 'G':
            w += b'<garbage>'
        else:
            w += b'<image>'
    return w


class Event:
    def __init__(self, kind, msg, st, ins, where, fnname):
        self.kind = kind
        self.msg = msg
        self.where = where
        self.fn = fnname
        self.imprecise = st.imprecise
        self.samples = {}
        for tn in st.tapes:
            try:
                self.samples[tn] = sample_tape(st, tn)
            except Exception as e:  # pragma: no cover
                self.samples[tn] = repr(e).encode()
        self.notes = st.notes()

    def key(self):
        return (self.kind, self.msg, tuple(self.where[:1]))


class Interp:
    def __init__(self, mod, models=(), max_steps=4000000, delay=16):
        self.split = False      # bounded words: every path on its own
        self.mod = mod
        self.models = models
        self.mcache = {}
        self.events = {}
        self.exits = []
        self.steps = 0
        self.max_steps = max_steps
        self.delay = delay
        self.heads = {}
        self.heap = []
        self.cnt = itertools.count()
        self.visited_blocks = set()
        self.visited_fns = set()
        self.nstates = 0
        self.njoins = 0
        self.on_exit = None
        self.on_event = None
        self.fold_all = False
        self.gcache = {}
        self.throw_ok = True
        self.loads = 0
        self.stores = 0
        self.cur_ins = None
        self.imprecisions = {}
        self.sizes = {}

    # ---- reporting
    def where(self, ins):
        return self.mod.loc(ins.dbg) if ins is not None else []

    def event(self, kind, msg, st, ins, fnname=''):
        if vacuous(st):
            return
        e = Event(kind, msg, st, ins, self.where(ins), fnname)
        k = e.key()
        old = self.events.get(k)
        e.words = list(old.words) if old else []
        if not self.split and len(e.words) < (200 if e.imprecise else 60):
            for w in witnesses(st):
                if w not in e.words:
                    e.words.append(w)
        if old is None or (old.imprecise and not e.imprecise):
            self.events[k] = e
        else:
            old.words = e.words
        if self.on_event:
            self.on_event(self, e, st)

    # ---- operands
    def opv(self, st, o, w=64):
        k = o[0]
        if k == 'id':
            try:
                return st.env[o[1]]
            except KeyError:
                raise AnalysisBroken('undefined SSA value ' + o[1])
        if k == 'int':
            return ('c', o[1], o[2])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'g':
            n = o[1]
            al = self.mod.aliases.get(n)
            if al is not None:
                return self.opv(st, al)
            return ('p', n, L0)
        if k == 'zero':
            return self.zero(o[1])
        if k == 'gepc':
            b = self.opv(st, o[2])
            off = ir.Function._gep(_FakeFn(self.mod), o[1], [(('i', 64), x) for x in o[3]])
            c = sum(x[1] for x in off if x[0] == 'c')
            if b[0] == 'p':
                return ('p', b[1], ladd(b[2], lconst(c)))
            return b
        if k == 'cast':
            return self.opv(st, o[2])
        if k == 'agg':
            return ('agg', tuple(self.opv(st, x) for _, x in o[1]))
        if k == 'str':
            return UNDEF
        raise AnalysisBroken('operand %r' % (o,))

    def zero(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'i':
            return ('c', t[1], 0)
        if t[0] == 'ptr':
            return NULL
        if t[0] == 's':
            return ('agg', tuple(self.zero(x) for x in t[1]))
        if t[0] == 'a':
            return ('agg', tuple(self.zero(t[2]) for _ in range(t[1])))
        return UNDEF

    # ---- globals
    def gbytes(self, name):
        """constant bytes of a global or None"""
        if name in self.gcache:
            return self.gcache[name]
        r = None
        g = self.mod.globals.get(name)
        if g and g[1] is not None and g[2]:
            ty, init, _ = g
            size = self.mod.sizeof(ty)
            buf = [None] * size
            slots = {}
            for off, sz, o in self.mod.leaves(ty, init):
                if o[0] == 'str':
                    for i, b in enumerate(o[1]):
                        buf[off + i] = b
                elif o[0] == 'zero':
                    for i in range(sz):
                        buf[off + i] = 0
                elif o[0] == 'int':
                    for i in range(sz):
                        buf[off + i] = o[2] >> (8 * i) & 255
                else:
                    slots[off] = (sz, o)
            r = (buf, slots)
        self.gcache[name] = r
        return r

    def gload(self, st, name, off, size):
        g = self.gbytes(name)
        if g is None:
            return None
        buf, slots = g
        if off < 0 or off + size > len(buf):
            return 'oob'
        if off in slots and slots[off][0] == size:
            return self.opv(st, slots[off][1])
        n = 0
        for i in range(size):
            if buf[off + i] is None:
                return None
            n |= buf[off + i] << (8 * i)
        return ('c', 8 * size, n)

    # ---- locating a position on a tape
    def locate(self, st, tn, pos, write=False):
        """-> [(state, idx or None)]; idx: boundary index at pos; None: outside the tape"""
        out = []
        st.regs['$loc'] = ('p', tn, pos)
        work = [st]
        while work:
            s = work.pop()
            pos = s.regs['$loc'][2]
            au, cells, mode = s.tapes[tn]
            bs = bounds(cells)
            best = None
            hit = None
            for i, b in enumerate(bs):
                d = lsub(pos, b)
                if d == L0:
                    hit = i
                    break
                if not d[1]:
                    if best is None or abs(d[0]) < abs(best[1]):
                        best = (i, d[0])
            if hit is not None:
                del s.regs['$loc']
                out.append((s, hit))
                continue
            if best is None:
                # symbolic offset into garbage
                done = False
                for i, c in enumerate(cells):
                    d = lsub(pos, bs[i])
                    if c[0] == 'G' and s.entails(d) and s.entails(lsub(bs[i + 1], pos)):
                        nc = cells[:i] + (('G', d) + c[2:], ('G', lsub(c[1], d)) + c[2:]) + cells[i + 1:]
                        s.tapes[tn] = (au, nc, mode)
                        del s.regs['$loc']
                        out.append((s, i + 1))
                        done = True
                        break
                if done:
                    continue
                # symbolic offset into a blob: split on the length of the leading blobs
                cand = None
                for i, c in enumerate(cells):
                    d = lsub(pos, bs[i])
                    if s.entails(d):
                        cand = (i, d)
                if s.entails(lsub(pos, bs[-1])):
                    r = [(a, b) for a, b in split_zero(s, lsub(pos, bs[-1]))]
                    for a, z in r:
                        if z:
                            work.append(a)
                        else:
                            a.regs.pop('$loc', None)
                            out.append((a, None))
                    continue
                s.regs.pop('$loc', None)
                out.append((s, 'unknown'))
                continue
            i, k = best
            if k > 0:
                if i == len(cells):
                    del s.regs['$loc']
                    out.append((s, None))
                    continue
                c = cells[i]
                if c[0] == 'G':
                    if s.entails(lsub(c[1], lconst(k))):
                        s.tapes[tn] = (au, cells[:i] + (('G', lconst(k)) + c[2:],) + ((('G', lsub(c[1], lconst(k))) + c[2:],) if lsub(c[1], lconst(k)) != L0 else ()) + cells[i + 1:], mode)
                        work.append(s)
                    else:
                        s.regs.pop('$loc', None)
                        out.append((s, 'unknown'))
                    continue
                if c[0] == 'I':
                    s.regs.pop('$loc', None)
                    out.append((s, 'unknown'))
                    continue
                work += self.first(s, tn, i)
            else:
                if i == 0:
                    del s.regs['$loc']
                    out.append((s, None))
                    continue
                c = cells[i - 1]
                if c[0] == 'G':
                    if s.entails(ladd(c[1], lconst(k))):
                        rest = ladd(c[1], lconst(k))
                        s.tapes[tn] = (au, cells[:i - 1] + ((('G', rest) + c[2:],) if rest != L0 else ()) + (('G', lconst(-k)) + c[2:],) + cells[i:], mode)
                        work.append(s)
                    else:
                        s.regs.pop('$loc', None)
                        out.append((s, 'unknown'))
                    continue
                if c[0] == 'I':
                    s.regs.pop('$loc', None)
                    out.append((s, 'unknown'))
                    continue
                work += self.last(s, tn, i - 1)
        return out

    def first(self, st, tn, i):
        """materialise the first byte of blob i, or remove the blob if empty -> [state]"""
        au, cells, mode = st.tapes[tn]
        c = cells[i]
        bid = c[1]
        out = []
        for s, z in split_zero(st, c[4]):
            if z:
                # blob removed by substitution (or const zero)
                self._drop_zero(s)
                out.append(s)
                continue
            au, cells, mode = s.tapes[tn]
            j = next(j for j, x in enumerate(cells) if x[0] in 'BO' and x[1] == bid)
            kind, _, q, R, ln, m = cells[j][:6]
            wt = cells[j][6] if len(cells[j]) > 6 else None
            nl = lsub(ln, L1)
            lo = s.lb(nl)
            cl = au.step_classes(q, R, m)
            pos = bounds(cells)[j] if kind == 'O' else None
            for n, (mm, q2, act) in enumerate(cl):
                if not nl[1]:
                    if not au.can(q2, R, m, nl[0], exact=True):
                        continue
                elif lo and lo > 0 and not au.can(q2, R, m, lo):
                    continue
                t = s.copy()
                f = fresh()
                t.fv[f] = mm
                new = [('C', f, q, q2)]
                if wt is not None and not self.weigh(t, wt, au.amounts(act, m >> 256), nl, bid):
                    continue
                if nl != L0:
                    new.append((kind, fresh(), q2, R) + self.rest(t, bid, m))
                elif q2 not in R:
                    continue
                put_cell(t, bid, new)
                t.regs.pop('$am', None)
                if act and kind == 'O':      # actions happen when a byte is first looked at
                    self.act(t, act, pos)
                out.append(t)
        return out

    def weigh(self, t, wt, am, nl, bid):
        """a byte contributing am leaves a blob of weights wt; False when impossible"""
        try:
            for k in range(len(wt)):
                c = next(c for _, cs, _ in t.tapes.values() for c in cs if c[0] in 'BO' and c[1] == bid)
                x = (c[6][k][0] - am[k], c[6][k][1])
                if nl == L0:
                    t.require_zero(x)
                else:
                    t.require_nonneg(x)
        except Infeasible:
            return False
        t.regs['$am'] = ('x', am)
        return True

    def rest(self, t, bid, m):
        """length, mask (and weights) of the blob bid after one byte"""
        c = next(c for _, cs, _ in t.tapes.values() for c in cs if c[0] in 'BO' and c[1] == bid)
        r = (lsub(c[4], L1), m)
        if len(c) > 6:
            am = t.regs.pop('$am')[1]
            r += (tuple((w[0] - a, w[1]) for w, a in zip(c[6], am)),)
        return r

    def _drop_zero(self, s):
        for nm, (au, cells, mode) in list(s.tapes.items()):
            if any(c[0] in 'BO' and c[4] == L0 for c in cells):
                s.tapes[nm] = (au, tuple(c for c in cells if not (c[0] in 'BO' and c[4] == L0)), mode)

    def act(self, st, acts, pos):
        for a in acts:
            if a[0] == 'pos':
                st.regs[a[1]] = mklin(ladd(pos, lconst(a[2])))
            elif a[0] == 'inc':
                st.regs[a[1]] = mklin(ladd(aslin(st.regs[a[1]]), lconst(a[2])))
            elif a[0] == 'set':
                st.regs[a[1]] = C(8, a[2])

    def last(self, st, tn, i):
        au, cells, mode = st.tapes[tn]
        c = cells[i]
        bid = c[1]
        out = []
        for s, z in split_zero(st, c[4]):
            if z:
                self._drop_zero(s)
                out.append(s)
                continue
            au, cells, mode = s.tapes[tn]
            j = next(j for j, x in enumerate(cells) if x[0] in 'BO' and x[1] == bid)
            kind, _, q, R, ln, m = cells[j][:6]
            wt = cells[j][6] if len(cells[j]) > 6 else None
            nl = lsub(ln, L1)
            lo = s.lb(nl)
            for (sq, mm, r, act) in au.back_classes(q, R, m):
                t = s.copy()
                f = fresh()
                t.fv[f] = mm
                S = frozenset([sq])
                if not nl[1]:
                    if not au.can(q, S, m, nl[0], exact=True):
                        continue
                elif not au.can(q, S, m, lo if lo and lo > 0 else 0):
                    continue
                new = []
                if wt is not None and not self.weigh(t, wt, au.amounts(act, m >> 256), nl, bid):
                    continue
                if nl != L0:
                    new.append((kind, fresh(), q, S) + self.rest(t, bid, m))
                new.append(('C', f, sq, r))
                put_cell(t, bid, new)
                t.regs.pop('$am', None)
                if act and kind == 'O':
                    self.act(t, act, ladd(bounds(cells)[j], nl))
                out.append(t)
        return out

    # ---- byte access
    def read8(self, st, tn, pos, ins):
        """-> [(state, value)]"""
        out = []
        work = [(s, i) for s, i in self.locate(st, tn, pos)]
        while work:
            s, i = work.pop()
            if i is None:
                self.event('oob-read', 'read outside the string', s, ins)
                continue
            if i == 'unknown':
                s.imprecise = s.imprecise or 'unlocatable read'
                self.event('unknown-read', 'read at a position the analysis cannot locate', s, ins)
                out.append((s, ('t', 8)))
                continue
            au, cells, mode = s.tapes[tn]
            if i == len(cells):
                self.event('oob-read', 'read past the end of the string', s, ins)
                continue
            c = cells[i]
            if c[0] == 'C':
                out.append((s, fn(s, 8, c[1], ID8 if isinstance(s.fv[c[1]], int) else IDD)))
            elif c[0] == 'V':
                out.append((s, c[1]))
            elif c[0] == 'G':
                if len(c) > 2:
                    s.imprecise = s.imprecise or 'forgotten byte'
                    self.event('unknown-read', 'read of a byte the analysis forgot', s, ins)
                else:
                    self.event('uninit-read', 'read of indeterminate bytes', s, ins)
                continue
            elif c[0] == 'I':
                self.event('unknown-read', 'read inside a rewritten image', s, ins)
                continue
            else:
                s.regs['$rd'] = ('p', tn, bounds(cells)[i])
                for t in self.first(s, tn, i):
                    p = t.regs.pop('$rd')[2]
                    # the boundary index is unchanged: cells before i are untouched or removed when empty
                    b = bounds(t.tapes[tn][1])
                    k = b.index(p)
                    work.append((t, k))
        return out

    def wrote(self, st):
        if '$mark' in st.regs and '$wr' not in st.regs:
            st.regs['$wr'] = C(8, 1)
            if self.on_first_write:
                self.on_first_write(self, st)

    on_first_write = None

    def shared(self, st, obj, ins):
        f = st.regs.get('$frozen')
        if f is not None and obj in f[1]:
            self.event('shared-write', 'an observer writes to what it observes', st, ins)

    def write8(self, st, tn, pos, v, ins):
        self.wrote(st)
        out = []
        st.regs['$wp'] = ('p', tn, pos)
        for s, i in self.locate(st, tn, pos, True):
            p = s.regs.pop('$wp')[2]
            if i == 'unknown':
                i = self.forget(s, tn, p)
            if i is None or i == 'unknown' or i == len(s.tapes[tn][1]):
                self.event('oob-write', 'write outside the buffer' if i != 'unknown' else 'write not provably inside the buffer', s, ins)
                continue
            work = [(s, i)]
            while work:
                s, i = work.pop()
                au, cells, mode = s.tapes[tn]
                if i == len(cells):
                    self.event('oob-write', 'write past the end of the buffer', s, ins)
                    continue
                c = cells[i]
                nv = ('C', v[2], None, None) if v[0] == 'f' and v[3] == ID8 and isinstance(s.fv[v[2]], int) else ('V', v)
                if c[0] in 'CV':
                    s.tapes[tn] = (au, cells[:i] + (nv,) + cells[i + 1:], mode)
                    out.append(s)
                elif c[0] == 'G':
                    r = lsub(c[1], L1)
                    if not s.entails(r):
                        z = split_zero(s, c[1])
                        if len(z) == 1 and not z[0][1]:
                            s.facts = s.facts + (r,)
                        else:
                            bad = [a for a, zz in z if zz]
                            ok = [a for a, zz in z if not zz]
                            for a in bad:
                                self._dropG(a)
                                work.append((a, i))
                            for a in ok:
                                a.facts = a.facts + (lsub(a.tapes[tn][1][i][1], L1),)
                                work.append((a, i))
                            continue
                    s.tapes[tn] = (au, cells[:i] + (nv,) + ((('G', r) + c[2:],) if r != L0 else ()) + cells[i + 1:], mode)
                    out.append(s)
                elif c[0] in 'BO':
                    s.regs['$rd'] = ('p', tn, bounds(cells)[i])
                    if v[0] in 'lp':
                        raise AnalysisBroken('wide byte')
                    for t in self.first(s, tn, i):
                        p = t.regs.pop('$rd')[2]
                        work.append((t, bounds(t.tapes[tn][1]).index(p)))
                else:
                    self.event('unknown-write', 'write inside a rewritten image', s, ins)
        return out

    def forget(self, s, tn, pos):
        """make pos a boundary by forgetting the content of the cells around it -> boundary index, 'unknown' if not inside"""
        au, cells, mode = s.tapes[tn]
        bs = bounds(cells)
        i = next((i for i in range(len(bs) - 1, -1, -1) if s.entails(lsub(pos, bs[i]))), None)
        j = next((j for j in range(len(bs)) if s.entails(lsub(bs[j], ladd(pos, L1)))), None)
        if i is None or j is None:
            return 'unknown'
        a, b = lsub(pos, bs[i]), lsub(bs[j], pos)
        s.tapes[tn] = (au, cells[:i] + ((('G', a, 1),) if a != L0 else ()) + (('G', b, 1),) + cells[j:], mode)
        return i + (a != L0)

    def _dropG(self, s):
        for nm, (au, cells, mode) in list(s.tapes.items()):
            if any(c[0] == 'G' and c[1] == L0 for c in cells):
                s.tapes[nm] = (au, tuple(c for c in cells if not (c[0] == 'G' and c[1] == L0)), mode)

    # ---- block copies
    def get_range(self, st, obj, pos, n, ins):
        """-> [(state, cells or None)] content of [pos, pos+n) of any object"""
        out = []
        if obj in st.tapes:
            st.regs['$n'] = mklin(n)
            for s, i in self.locate(st, obj, pos):
                n2 = aslin(s.regs.pop('$n'))
                if i is None or i == 'unknown':
                    if n2 == L0:
                        out.append((s, ()))
                        continue
                    self.event('oob-read', 'block read outside the string', s, ins)
                    continue
                if n2 == L0:
                    out.append((s, ()))
                    continue
                p = bounds(s.tapes[obj][1])[i]
                s.regs['$p'] = ('p', obj, p)
                for t, j in self.locate(s, obj, ladd(p, n2)):
                    p2 = t.regs.pop('$p')[2]
                    if j is None or j == 'unknown':
                        self.event('oob-read', 'block read past the end of the string', t, ins)
                        continue
                    bs = bounds(t.tapes[obj][1])
                    i2 = bs.index(p2)
                    if j < i2:
                        self.event('oob-read', 'block read of negative length', t, ins)
                        continue
                    out.append((t, t.tapes[obj][1][i2:j]))
            return out
        if n[1] or pos[1]:
            return [(st, None)]
        if obj.startswith('@'):
            cells = []
            for k in range(n[0]):
                v = self.gload(st, obj, pos[0] + k, 1)
                if v is None or v == 'oob':
                    self.event('oob-read', 'block read outside a constant', st, ins)
                    return []
                cells.append(('V', v))
            return [(st, tuple(cells))]
        cells = []
        for k in range(n[0]):
            e = st.mem.get((obj, pos[0] + k))
            if e is None or e[0] != 1:
                return [(st, None)]
            cells.append(('V', e[1]))
        return [(st, tuple(cells))]

    def vacate(self, s, tn, cells):
        """a block is moved within its buffer: what stays behind of the old copy is forgotten"""
        au, all_, mode = s.tapes[tn]
        n = len(cells)
        cells = tuple(cells)
        at = [i for i in range(len(all_) - n + 1) if all_[i:i + n] == cells]
        if len(at) == 1:
            i = at[0]
            s.tapes[tn] = (au, all_[:i] + (('G', total(cells), 1),) + all_[i + n:], mode)

    def splice(self, st, tn, dpos, dlen, new, ins):
        """overwrite [dpos, dpos+dlen) of tape tn -> [state]"""
        self.wrote(st)
        out = []
        if dlen == L0:
            return [st]
        au, cells, mode = st.tapes[tn]
        bs = bounds(cells)
        # prefer exact boundaries through constant distance
        st.regs['$dl'] = mklin(dlen)
        st.regs['$dp'] = ('p', tn, dpos)
        st.tapes['$new'] = (au, tuple(new), None)      # refined together with the tapes
        cand = [st]
        if dpos not in bs and any(not lsub(dpos, b)[1] for b in bs) and not (
                any(st.entails(lsub(dpos, b)) for b in bs) and any(st.entails(lsub(b, ladd(dpos, dlen))) for b in bs)):
            cand = []
            for s, i in self.locate(st, tn, dpos, True):
                if i is None:
                    self.event('oob-write', 'block write outside the buffer', s, ins)
                    continue
                cand.append(s)
        for s in cand:
            dl = aslin(s.regs.pop('$dl'))
            dp = s.regs.pop('$dp')[2]
            new = list(s.tapes.pop('$new')[1])
            au, cells, mode = s.tapes[tn]
            bs = bounds(cells)
            de = ladd(dp, dl)
            if not s.entails(dp) or not s.entails(lsub(bs[-1], de)):
                self.event('oob-write', 'block write not inside the buffer', s, ins)
                continue
            pre = None
            for i in range(len(bs) - 1, -1, -1):
                d = lsub(dp, bs[i])
                if d == L0:
                    pre = (i, d)
                    break
            if pre is None:
                for i in range(len(bs) - 1, -1, -1):
                    d = lsub(dp, bs[i])
                    if s.entails(d):
                        pre = (i, d)
                        break
            suf = None
            for j in range(len(bs)):
                d = lsub(bs[j], de)
                if d == L0:
                    suf = (j, d)
                    break
            if suf is None:
                for j in range(len(bs)):
                    d = lsub(bs[j], de)
                    if s.entails(d):
                        suf = (j, d)
                        break
            nc = list(cells[:pre[0]])
            if pre[1] != L0:
                nc.append(('G', pre[1], 1))
            nc += new
            if suf[1] != L0:
                nc.append(('G', suf[1], 1))
            nc += cells[suf[0]:]
            s.tapes[tn] = (au, tuple(nc), mode)
            out.append(s)
        return out

    def memcpy(self, st, dst, src, n, ins, move=False):
        """-> [state]"""
        nl = aslin(n)
        if dst[0] == 'p' and nl != L0:
            self.shared(st, dst[1], ins)
        if nl is None:
            if n[0] == 'f' or n[0] == 'r' or n[0] == 't' or n[0] == 'u':
                st.imprecise = st.imprecise or 'unknown copy size'
                self.event('unknown-copy', 'copy of unknown size', st, ins)
                return []
        if nl == L0:
            return [st]
        if dst[0] != 'p' or src[0] != 'p':
            # null pointers with a possibly zero count
            out = []
            for s, z in split_zero(st, nl):
                if z:
                    out.append(s)
                else:
                    self.event('null-copy', 'copy through a null or unknown pointer', s, ins)
            return out
        if not self.alive(st, dst, ins, 'oob-write') or not self.alive(st, src, ins, 'oob-read'):
            return []
        if dst[1] in st.tapes:
            out = []
            st.regs['$dst'] = dst
            st.regs['$cn'] = mklin(nl)
            for s, cells in self.get_range(st, src[1], src[2], nl, ins):
                d = s.regs.pop('$dst')
                k = aslin(s.regs.pop('$cn'))
                if cells is None:
                    s.imprecise = s.imprecise or 'unknown copy source'
                    cells = (('G', k, 1),)
                if d[1] == src[1] and cells:
                    self.vacate(s, d[1], cells)
                out += self.splice(s, d[1], d[2], k, list(cells), ins)
            return out
        if nl[1] or dst[2][1]:
            st.imprecise = st.imprecise or 'symbolic copy into scalar memory'
            self.event('unknown-copy', 'copy of symbolic size into scalar memory', st, ins)
            return []
        size = nl[0]
        if not self.inbounds(st, dst[1], dst[2][0], size, ins, 'oob-write'):
            return []
        if src[1] in st.tapes:
            out = []
            st.regs['$dst'] = dst
            for s, cells in self.get_range(st, src[1], src[2], nl, ins):
                d = s.regs.pop('$dst')
                off = d[2][0]
                # materialise
                work = [s]
                for k in range(size):
                    nxt = []
                    for t in work:
                        for u, v in self.read8(t, src[1], ladd(src[2], lconst(k)), ins):
                            self.kill(u, d[1], off + k, 1)
                            u.mem[(d[1], off + k)] = (1, v)
                            nxt.append(u)
                    work = nxt
                out += work
            return out
        if src[2][1]:
            raise AnalysisBroken('symbolic copy source in scalar memory')
        so, do = src[2][0], dst[2][0]
        items = []
        if src[1].startswith('@'):
            g = self.gbytes(src[1])
            if g is None:
                self.kill(st, dst[1], do, size)
                return [st]
            k = 0
            while k < size:
                v = None
                for w in (8, 4, 2, 1):
                    if k + w <= size and (k % w == 0):
                        v = self.gload(st, src[1], so + k, w)
                        if v not in (None, 'oob'):
                            break
                items.append((k, w, v))
                k += w
        else:
            if not self.inbounds(st, src[1], so, size, ins, 'oob-read'):
                return []
            for (o, f), (w, v) in st.mem.items():
                if o == src[1] and so <= f and f + w <= so + size:
                    items.append((f - so, w, v))
        self.kill(st, dst[1], do, size)
        for k, w, v in items:
            st.mem[(dst[1], do + k)] = (w, v)
        return [st]

    def kill(self, st, obj, off, size):
        for (o, f) in [k for k in st.mem if k[0] == obj]:
            w = st.mem[(o, f)][0]
            if f < off + size and off < f + w:
                del st.mem[(o, f)]

    objsize = None

    def inbounds(self, st, obj, off, size, ins, kind):
        n = self.sizes.get(obj)
        if n is not None and (off < 0 or off + size > n):
            self.event(kind, 'access outside object %s' % obj, st, ins)
            return False
        return True

    def alive(self, st, p, ins, kind):
        if p[1] in st.dead:
            self.event(kind.replace('oob', 'dangling'), 'use of released storage', st, ins)
            return False
        return True

    # ---- load / store
    def load(self, st, p, ty, ins):
        mod = self.mod
        ty = mod.resolve(ty)
        size = mod.sizeof(ty)
        self.loads += 1
        if p[0] == 'p':
            obj, off = p[1], p[2]
            if obj in st.tapes:
                if not self.alive(st, p, ins, 'oob-read'):
                    return []
                if size == 1:
                    return self.read8(st, obj, off, ins)
                if size in (2, 4, 8):
                    # wide load from a string (e.g. memcmp expansion)
                    work = [(st, [])]
                    st.regs['$wl'] = p
                    for k in range(size):
                        nxt = []
                        for s, vs in work:
                            q = s.regs['$wl']
                            for t, v in self.read8(s, q[1], ladd(q[2], lconst(k)), ins):
                                nxt.append((t, vs + [v]))
                        work = nxt
                    out = []
                    for s, vs in work:
                        s.regs.pop('$wl', None)
                        acc = C(8 * size, 0)
                        for k, v in enumerate(vs):
                            acc = binop(s, 'or', 8 * size, acc, binop(s, 'shl', 8 * size, cast(s, 'zext', v, 8, 8 * size), C(8 * size, 8 * k)))
                        out.append((s, acc))
                    return out
                raise AnalysisBroken('wide string load')
            if obj.startswith('@'):
                if off[1]:
                    return [(st, ('t', size * 8))]
                v = self.gload(st, obj, off[0], size)
                if v == 'oob':
                    self.event('oob-read', 'read outside constant %s' % obj, st, ins)
                    return []
                if v is None:
                    e = st.mem.get((obj, off[0]))
                    if e and e[0] == size:
                        return [(st, e[1])]
                    return [(st, ('t', size * 8))]
                return [(st, v)]
            if off[1]:
                st.imprecise = st.imprecise or 'symbolic scalar address'
                self.event('unknown-read', 'read at a symbolic offset of scalar memory', st, ins)
                return [(st, ('t', size * 8))]
            if not self.alive(st, p, ins, 'oob-read') or not self.inbounds(st, obj, off[0], size, ins, 'oob-read'):
                return []
            e = st.mem.get((obj, off[0]))
            if e is not None:
                if e[0] == size:
                    return [(st, e[1])]
                if e[0] > size and e[1][0] == 'c':
                    return [(st, C(size * 8, e[1][2]))]
            if ty[0] in 'sa' :
                return [(st, self.load_agg(st, obj, off[0], ty))]
            # assemble from bytes
            if size > 1:
                n = 0
                ok = True
                k = 0
                while k < size:
                    e = st.mem.get((obj, off[0] + k))
                    if e is None or e[1][0] != 'c':
                        ok = False
                        break
                    n |= (e[1][2] & ((1 << (8 * e[0])) - 1)) << (8 * k)
                    k += e[0]
                if ok and k == size:
                    return [(st, C(size * 8, n))]
                for (o, f), (w, v) in st.mem.items():
                    if o == obj and f < off[0] + size and off[0] < f + w:
                        return [(st, ('t', size * 8))]
            else:
                for w in (2, 4, 8):
                    f = off[0] // w * w
                    e = st.mem.get((obj, f))
                    if e is not None and e[0] == w:
                        if e[1][0] == 'c':
                            return [(st, C(8, e[1][2] >> (8 * (off[0] - f))))]
                        return [(st, ('t', 8))]
            return [(st, UNDEF)]
        if p[0] == 'q':
            # table lookup at a finite-variable index
            obj, base, f = p[1], p[2], p[3]
            if base[1] or not obj.startswith('@'):
                if obj in st.tapes or obj.startswith('@'):
                    return [(st, ('t', size * 8))]
                # array in scalar memory indexed by a finite variable: split
                out = []
                for x in sorted(st.image(f)):
                    s = st.copy()
                    try:
                        s.restrict(f[2], [d for d in st.dom(f[2]) if tlook(f[3], d) == x])
                    except Infeasible:
                        continue
                    out += self.load(s, ('p', obj, ladd(base, lconst(sgn(x, 64)))), ty, ins)
                return out
            b = base[0]
            mp = {}
            bad = []
            for x in st.image(f):
                v = self.gload(st, obj, b + sgn(x, 64), size)
                if v is None:
                    return [(st, ('t', size * 8))]
                if v == 'oob':
                    bad.append(x)
                else:
                    if v[0] != 'c':
                        return [(st, ('t', size * 8))]
                    mp[x] = v[2]
            if bad:
                self.event('oob-read', 'table %s indexed out of range' % obj, st, ins)
                try:
                    st.restrict(f[2], [d for d in st.dom(f[2]) if tlook(f[3], d) in mp])
                except Infeasible:
                    return []
            return [(st, map_fn(st, f, size * 8, lambda x: mp.get(x), ('tab', obj, b, size, tuple(sorted(mp)))))]
        if p[0] == 'c':
            self.event('null-deref', 'read through a null pointer', st, ins)
            return []
        st.imprecise = st.imprecise or 'unknown pointer'
        self.event('unknown-read', 'read through an unknown pointer', st, ins)
        return [(st, ('t', size * 8))]

    def load_agg(self, st, obj, off, ty):
        mod = self.mod
        ty = mod.resolve(ty)
        if ty[0] == 's':
            r = []
            for i in range(len(ty[1])):
                fo, ft = mod.field_off(ty, i)
                r.append(self.load_agg(st, obj, off + fo, ft))
            return ('agg', tuple(r))
        if ty[0] == 'a':
            es = mod.sizeof(ty[2])
            return ('agg', tuple(self.load_agg(st, obj, off + i * es, ty[2]) for i in range(ty[1])))
        e = st.mem.get((obj, off))
        if e and e[0] == mod.sizeof(ty):
            return e[1]
        return UNDEF

    def store(self, st, p, v, ty, ins):
        mod = self.mod
        ty = mod.resolve(ty)
        size = mod.sizeof(ty)
        self.stores += 1
        if p[0] == 'p':
            obj, off = p[1], p[2]
            self.shared(st, obj, ins)
            if obj in st.tapes:
                if not self.alive(st, p, ins, 'oob-write'):
                    return []
                if size == 1:
                    return self.write8(st, obj, off, v, ins)
                if v[0] == 'c':
                    work = [st]
                    for k in range(size):
                        work = [u for t in work for u in self.write8(t, obj, ladd(off, lconst(k)), C(8, v[2] >> (8 * k)), ins)]
                    return work
                raise AnalysisBroken('wide string store')
            if obj.startswith('@'):
                g = self.mod.globals.get(obj)
                if g is not None and g[2]:
                    self.event('oob-write', 'write to constant %s' % obj, st, ins)
                    return []
                self.event('global-write', 'write to global %s' % obj, st, ins)
            if off[1]:
                st.imprecise = st.imprecise or 'symbolic scalar address'
                self.event('unknown-write', 'write at a symbolic offset of scalar memory', st, ins)
                return []
            if not self.alive(st, p, ins, 'oob-write') or not self.inbounds(st, obj, off[0], size, ins, 'oob-write'):
                return []
            self.put(st, obj, off[0], ty, v)
            return [st]
        if p[0] == 'c':
            self.event('null-deref', 'write through a null pointer', st, ins)
            return []
        if p[0] == 'q' and not p[2][1] and not p[1].startswith('@') and p[1] not in st.tapes:
            out = []
            f = p[3]
            for x in sorted(st.image(f)):
                s = st.copy()
                try:
                    s.restrict(f[2], [d for d in st.dom(f[2]) if tlook(f[3], d) == x])
                except Infeasible:
                    continue
                out += self.store(s, ('p', p[1], ladd(p[2], lconst(sgn(x, 64)))), v, ty, ins)
            return out
        st.imprecise = st.imprecise or 'unknown pointer'
        self.event('unknown-write', 'write through an unknown pointer', st, ins)
        return []

    def put(self, st, obj, off, ty, v):
        mod = self.mod
        ty = mod.resolve(ty)
        if v[0] == 'agg':
            for i, x in enumerate(v[1]):
                if ty[0] == 's':
                    fo, ft = mod.field_off(ty, i)
                else:
                    ft = ty[2]
                    fo = i * mod.sizeof(ft)
                self.put(st, obj, off + fo, ft, x)
            return
        size = mod.sizeof(ty)
        m = st.mem
        if m.get((obj, off), (0,))[0] != size:
            self.kill(st, obj, off, size)
        m[(obj, off)] = (size, v)

    # ---- comparisons
    def icmp(self, st, pred, w, a, b, ins):
        """-> [(state, value i1)]"""
        ka, kb = a[0], b[0]
        if ka == 'c' and kb == 'c':
            return [(st, TRUE if _cmp(pred, w, a[2], b[2]) else FALSE)]
        if ka == 'f' and kb == 'c':
            n = b[2]
            return [(st, map_fn(st, a, 1, lambda x: int(_cmp(pred, w, x, n)), ('cmp', pred, w, n)))]
        if ka == 'c' and kb == 'f':
            n = a[2]
            return [(st, map_fn(st, b, 1, lambda x: int(_cmp(pred, w, n, x)), ('cmpr', pred, w, n)))]
        if ka == 'f' and kb == 'f':
            if a[2] == b[2]:
                if isinstance(st.fv[a[2]], int):
                    ta, tb = _TABS[a[3]], _TABS[b[3]]
                    t = intern_tab(tuple(None if ta[i] is None or tb[i] is None else int(_cmp(pred, w, ta[i], tb[i])) for i in range(256)))
                else:
                    t = intern_tab({x: int(_cmp(pred, w, tlook(a[3], x), tlook(b[3], x))) for x in st.dom(a[2])})
                return [(st, fn(st, 1, a[2], t))]
            return self.cmp_ff(st, pred, w, a, b)
        if ka == 'p' and kb == 'p':
            if a[1] == b[1]:
                d = lsub(a[2], b[2])
                return self.cmp_lin(st, pred, d)
            if pred == 'eq':
                return [(st, FALSE)]
            if pred == 'ne':
                return [(st, TRUE)]
            return self.both(st, 'ordering of unrelated pointers')
        if ka == 'p' and kb == 'c' or ka == 'c' and kb == 'p':
            if pred == 'eq':
                return [(st, FALSE)]
            if pred == 'ne':
                return [(st, TRUE)]
            # pointer compared with null
            r = pred in ('ugt', 'uge') if ka == 'p' else pred in ('ult', 'ule')
            return [(st, TRUE if r else FALSE)]
        la, lb = (aslin(a), aslin(b)) if w == 64 else (None, None)
        if la is not None and lb is not None:
            if pred in ('eq', 'ne') or pred[0] == 's':
                return self.cmp_lin(st, pred, lsub(la, lb))
            # unsigned: settle the signs first
            st.regs['$ua'] = mklin(la)
            st.regs['$ub'] = mklin(lb)
            out = []
            for s, na in split_neg(st, la):
                for t, nb in split_neg(s, aslin(s.regs['$ub'])):
                    x, y = aslin(t.regs.pop('$ua')), aslin(t.regs.pop('$ub'))
                    if na and nb or not na and not nb:
                        out += self.cmp_lin(t, pred, lsub(x, y))
                    else:
                        # the negative one is huge
                        less = not na
                        r = {'ult': less, 'ule': less, 'ugt': not less, 'uge': not less}[pred]
                        out.append((t, TRUE if r else FALSE))
            return out
        if ka == 'r' or kb == 'r':
            return self.cmp_iv(st, pred, w, a, b)
        return self.both(st, 'comparison of unknown values')

    def cmp_ff(self, st, pred, w, a, b):
        # two different bytes: split on the value of the one with the smaller image
        if len(st.image(a)) > len(st.image(b)):
            sw = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule',
                  'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}[pred]
            return self.cmp_ff2(st, sw, w, b, a)
        return self.cmp_ff2(st, pred, w, a, b)

    def cmp_ff2(self, st, pred, w, a, b):
        ia = sorted(st.image(a))
        if len(ia) > 300:
            return self.both(st, 'comparison of large sets')
        out = []
        da = st.dom(a[2])
        for x in ia:
            s = st.copy()
            try:
                s.restrict(a[2], [d for d in da if tlook(a[3], d) == x])
            except Infeasible:
                continue
            out.append((s, map_fn(s, b, 1, lambda y: int(_cmp(pred, w, x, y)), ('cmpr', pred, w, x))))
        return out

    def cmp_iv(self, st, pred, w, a, b):
        def iv(v):
            if v[0] == 'r':
                return v[2], v[3]
            if v[0] == 'c':
                return v[2], v[2]
            if v[0] == 'f':
                im = st.image(v)
                return min(im), max(im)
            return None
        x, y = iv(a), iv(b)
        if x and y and (pred[0] != 's' or max(x[1], y[1]) < 1 << (w - 1)):
            p = pred if pred in ('eq', 'ne') else pred[1:]
            r = None
            if p in ('lt', 'ge'):
                r = True if x[1] < y[0] else False if x[0] >= y[1] else None
                if p == 'ge' and r is not None:
                    r = not r
            elif p in ('gt', 'le'):
                r = True if x[0] > y[1] else False if x[1] <= y[0] else None
                if p == 'le' and r is not None:
                    r = not r
            elif p in ('eq', 'ne'):
                r = False if x[1] < y[0] or y[1] < x[0] else None
                if p == 'ne' and r is not None:
                    r = not r
            if r is not None:
                return [(st, TRUE if r else FALSE)]
        return self.both(st, 'comparison of intervals')

    def both(self, st, why):
        if not st.imprecise:
            w = self.where(self.cur_ins)
            st.imprecise = why + (' at %s:%d' % (w[0][0], w[0][1]) if w else '')
            self.imprecisions[st.imprecise] = self.imprecisions.get(st.imprecise, 0) + 1
        t = st.copy()
        return [(st, TRUE), (t, FALSE)]

    def cmp_lin(self, st, pred, d):
        if pred == 'eq':
            return [(s, TRUE if z else FALSE) for s, z in split_zero(st, d)]
        if pred == 'ne':
            return [(s, FALSE if z else TRUE) for s, z in split_zero(st, d)]
        p = pred[1:]
        if p == 'lt':
            return [(s, TRUE if z else FALSE) for s, z in split_neg(st, d)]
        if p == 'ge':
            return [(s, FALSE if z else TRUE) for s, z in split_neg(st, d)]
        m = lmul(d, -1)
        if p == 'gt':
            return [(s, TRUE if z else FALSE) for s, z in split_neg(st, m)]
        return [(s, FALSE if z else TRUE) for s, z in split_neg(st, m)]

    def truth(self, st, v):
        """-> [(state, bool)]"""
        if v[0] == 'c':
            return [(st, bool(v[2] & 1))]
        if v[0] == 'f':
            d = st.dom(v[2])
            t = [x for x in d if tlook(v[3], x)]
            f = [x for x in d if not tlook(v[3], x)]
            out = []
            if t and f:
                s = st.copy()
                s.restrict(v[2], t)
                self.refine_noted(s, v[2])
                out.append((s, True))
                st.restrict(v[2], f)
                self.refine_noted(st, v[2])
                out.append((st, False))
            else:
                out.append((st, bool(t)))
            return out
        if v[0] == 'u':
            self.undef_branch = True
        t = st.copy()
        st.imprecise = st.imprecise or 'branch on unknown'
        t.imprecise = t.imprecise or 'branch on unknown'
        return [(st, True), (t, False)]

    def refine_noted(self, st, fid):
        pass


class _FakeFn:
    def __init__(self, mod):
        self.mod = mod
