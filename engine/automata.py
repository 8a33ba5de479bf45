"""Byte automata for the reference grammars (RFC 3986), built from regular
expressions: combinators -> NFA -> subset construction -> minimisation."""

ALL = (1 << 256) - 1


def mask(s):
    m = 0
    for c in s:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


def rng(a, b):
    return mask(range(ord(a), ord(b) + 1))


ALPHA = rng('a', 'z') | rng('A', 'Z')
DIGIT = rng('0', '9')
HEX = DIGIT | rng('a', 'f') | rng('A', 'F')
UNRES = ALPHA | DIGIT | mask('-._~')
SUBD = mask("!$&'()*+,;=")
PCHAR1 = UNRES | SUBD | mask(':@')          # pchar without pct-encoded
SCHEMEC = ALPHA | DIGIT | mask('+-.')
REGNAME1 = UNRES | SUBD
USER1 = UNRES | SUBD
PASS1 = UNRES | SUBD | mask(':')
SEGNC1 = UNRES | SUBD | mask('@')
FRAG1 = PCHAR1 | mask('/?')


# ---- regex AST
def cls(m):
    return ('c', m if isinstance(m, int) else mask(m))


def lit(s):
    return seq(*[cls(ch) for ch in s])


def seq(*xs):
    return ('s', tuple(xs))


def alt(*xs):
    return ('a', tuple(xs))


def star(x):
    return ('*', x)


def opt(x):
    return alt(EPS, x)


def rep(x, lo, hi):
    r = [x] * lo
    t = EPS
    for _ in range(hi - lo):
        t = opt(seq(x, t))
    return seq(*(r + [t]))


def plus(x):
    return seq(x, star(x))


EPS = ('s', ())


class NFA:
    def __init__(self):
        self.n = 0
        self.eps = []
        self.tr = []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        self.n += 1
        return self.n - 1

    def build(self, r):
        k = r[0]
        if k == 'c':
            a, b = self.new(), self.new()
            if r[1]:
                self.tr[a].append((r[1], b))
            return a, b
        if k == 's':
            a = b = self.new()
            for x in r[1]:
                c, d = self.build(x)
                self.eps[b].append(c)
                b = d
            return a, b
        if k == 'a':
            a, b = self.new(), self.new()
            for x in r[1]:
                c, d = self.build(x)
                self.eps[a].append(c)
                self.eps[d].append(b)
            return a, b
        if k == '*':
            a, b = self.new(), self.new()
            c, d = self.build(r[1])
            self.eps[a] += [c, b]
            self.eps[d] += [c, b]
            return a, b
        raise ValueError(k)

    def close(self, S):
        st = list(S)
        out = set(S)
        while st:
            x = st.pop()
            for y in self.eps[x]:
                if y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)


def partition(masks):
    parts = [ALL]
    for m in set(masks):
        nx = []
        for p in parts:
            a, b = p & m, p & ~m
            if a:
                nx.append(a)
            if b:
                nx.append(b)
        parts = nx
    return parts


class Auto:
    """trans[q] = [(mask, q', actions)], disjoint masks for a DFA. labels[q] arbitrary."""

    def __init__(self, ntrans, start, final, actions=None):
        self.trans = ntrans
        self.n = len(ntrans)
        self.start = start
        self.final = frozenset(final)
        self.all = frozenset(range(self.n))
        self._rc = {}
        self._len = {}
        self._cls = {}
        self._rev = None
        # action groups: a byte mask carries, above bit 256, the group its transitions must belong to (0: any)
        names = {}
        self.gid = {}
        anyact = any(len(tr) > 2 and tr[2] for row in ntrans for tr in row)
        for q, row in enumerate(ntrans):
            for tr in row:
                k = next((a[1] for a in (tr[2] if len(tr) > 2 else ()) if a[0] in ('inc', 'tag')), '') if anyact else None
                if k is not None:
                    self.gid[(q, tr)] = names.setdefault(k, len(names) + 1)
        self.gnames = {v: k for k, v in names.items()}
        self._tr = {}
        self.gw = {}

    def weigh(self, regs):
        """blobs carry, per register in regs their group can increment, the amount contributed by their content"""
        d = {}
        self.wregs = regs
        for q, row in enumerate(self.trans):
            for tr in row:
                for a in (tr[2] if len(tr) > 2 else ()):
                    if a[0] == 'inc' and a[1] in regs:
                        d.setdefault(self.gid[(q, tr)], set()).add(a[1])
        self.gw = {g: tuple(sorted(v)) for g, v in d.items()}

    def amounts(self, act, g):
        return tuple(sum(a[2] for a in act if a[0] == 'inc' and a[1] == r) for r in self.gw.get(g, ()))

    def cell_act(self, p, q, d):
        """what a byte in d taken from p to q contributes to the weighed registers"""
        k = ('act', p, q, d)
        r = self._len.get(k)
        if r is None:
            r = set()
            if isinstance(d, int):
                for tr in self.trans[p]:
                    if tr[1] == q and tr[0] & d:
                        r.add(tuple(a for a in tr[2] if a[0] == 'inc' and a[1] in self.wregs))
            r = self._len[k] = (frozenset(r),)
        return r

    def cell_weight(self, p, q, d, g):
        """amounts of a byte in d taken from p to q in group g; None when not unique"""
        w = {self.amounts(tr[2], g) for tr in self.trans[p] if tr[1] == q and tr[0] & d and self.gid[(p, tr)] == g}
        return next(iter(w)) if len(w) == 1 else None

    def out(self, q, m):
        """transitions of q over the bytes (and the group) of m"""
        k = (q, m)
        r = self._tr.get(k)
        if r is None:
            g = m >> 256
            b = m & ALL
            r = self._tr[k] = [(tr[0] & b,) + tuple(tr[1:]) for tr in self.trans[q] if tr[0] & b and (not g or self.gid[(q, tr)] == g)]
        return r

    def cell_group(self, p, q, d):
        """group bits of a single byte in d taken from p to q (0 when unknown)"""
        if not self.gid:
            return 0
        gs = {self.gid[(p, tr)] for tr in self.trans[p] if tr[1] == q and tr[0] & d}
        return next(iter(gs)) << 256 if len(gs) == 1 else 0

    # states that can reach some state in R (within bytes of m)
    def coreach(self, R, m=ALL):
        k = (R, m)
        r = self._rc.get(k)
        if r is None:
            rev = {}
            for q in range(self.n):
                for (mm, t, *_ ) in self.out(q, m):
                    rev.setdefault(t, set()).add(q)
            out = set(R)
            st = list(R)
            while st:
                x = st.pop()
                for y in rev.get(x, ()):
                    if y not in out:
                        out.add(y)
                        st.append(y)
            r = self._rc[k] = frozenset(out)
        return r

    def coreach_exact(self, R, k, m=ALL):
        key = (R, k, m)
        r = self._len.get(key)
        if r is None:
            cur = frozenset(R)
            for _ in range(k):
                cur = frozenset(q for q in range(self.n) if any(t in cur for (mm, t, *_ ) in self.out(q, m)))
            r = self._len[key] = cur
        return r

    def can(self, q, R, m, lo, exact=False):
        """is there a word over m of length >= lo (== lo if exact) from q into R"""
        if exact:
            return q in self.coreach_exact(R, lo, m)
        key = ('ge', q, R, m, lo)
        r = self._len.get(key)
        if r is None:
            base = self.coreach(R, m)
            r = self._len[key] = q in self.coreach_exact(base, lo, m)
        return r

    def minword(self, q, R, m):
        """length of the shortest word over m from q into R (0 when there is none)"""
        key = ('min', q, R, m)
        r = self._len.get(key)
        if r is None:
            seen = {q}
            cur = [q]
            n = 0
            r = 0
            while cur:
                if any(x in R for x in cur):
                    r = n
                    break
                nx = []
                for x in cur:
                    for tr in self.out(x, m):
                        if tr[0] and tr[1] not in seen:
                            seen.add(tr[1])
                            nx.append(tr[1])
                cur = nx
                n += 1
            self._len[key] = r
        return r

    def step_classes(self, q, R, m):
        """[(mask, q', actions)] for the first byte of a word over m from q into R (ignoring length)"""
        key = (q, R, m)
        r = self._cls.get(key)
        if r is None:
            ok = self.coreach(R, m)
            d = {}
            for tr in self.out(q, m):
                mm, t = tr[0], tr[1]
                act = tr[2] if len(tr) > 2 else ()
                if mm and t in ok:
                    d[(t, act)] = d.get((t, act), 0) | mm
            r = self._cls[key] = [(mm, t, act) for (t, act), mm in d.items()]
        return r

    def back_classes(self, q, R, m):
        """[(s, mask, r, actions)]: last byte of a non-empty word over m from q into R"""
        key = ('b', q, R, m)
        r = self._cls.get(key)
        if r is None:
            fw = {q}
            st = [q]
            while st:
                x = st.pop()
                for tr in self.out(x, m):
                    if tr[1] not in fw:
                        fw.add(tr[1])
                        st.append(tr[1])
            d = {}
            for s in fw:
                for tr in self.out(s, m):
                    mm = tr[0]
                    if tr[1] in R:
                        k = (s, tr[1], tr[2] if len(tr) > 2 else ())
                        d[k] = d.get(k, 0) | mm
            r = self._cls[key] = [(s, mm, t, act) for (s, t, act), mm in d.items()]
        return r

    def accepts(self, w):
        S = {self.start}
        for c in w:
            S = {tr[1] for q in S for tr in self.trans[q] if tr[0] >> c & 1}
        return bool(S & self.final)


def union(autos):
    """disjoint union -> (Auto, [offset of each])"""
    tr, offs, fin = [], [], set()
    for a in autos:
        o = len(tr)
        offs.append(o)
        for row in a.trans:
            tr.append([(t[0], t[1] + o, t[2] if len(t) > 2 else ()) for t in row])
        fin |= {f + o for f in a.final}
    return Auto(tr, offs[0], fin), offs


def byteclass(au, c):
    """the bytes no transition of the automaton tells from c"""
    m = ALL
    for row in au.trans:
        for tr in row:
            m &= tr[0] if tr[0] >> c & 1 else ALL & ~tr[0]
    return m


def pattern(au, w):
    """the automaton restricted to the words that have the byte classes of w, position by position"""
    ids = {(0, au.start): 0}
    rows = []
    work = [(0, au.start)]
    cl = [byteclass(au, c) for c in w]
    while work:
        i, q = work.pop()
        row = []
        if i < len(w):
            for tr in au.trans[q]:
                if tr[0] & cl[i]:
                    k = (i + 1, tr[1])
                    if k not in ids:
                        ids[k] = len(ids)
                        work.append(k)
                    row.append((tr[0] & cl[i], ids[k], tr[2] if len(tr) > 2 else ()))
        rows.append((ids[i, q], row))
    rows = [r for _, r in sorted(rows, key=lambda x: x[0])]
    end = {q: k for (i, q), k in ids.items() if i == len(w)}
    a = Auto(rows, 0, [k for q, k in end.items() if q in au.final])
    a.ends = frozenset(end.values())
    a.orig = {k: q for q, k in end.items()}
    a.length = len(w)
    a.finals = [frozenset(k for q, k in end.items() if q in F) for F in getattr(au, 'finals', [au.final])]
    return a


def cover(au):
    """words that together use every transition of the automaton"""
    import absint
    return absint.cover(au, au.start, au.final, ALL, pairs=False)


def dfa(regex, total=True):
    """minimal DFA; if total, completed with a sink"""
    return dfa_multi([regex], total)[0]


def dfa_multi(regexes, total=True):
    """Minimal DFA whose states also carry, per regex, finality: returns (Auto, [final sets])."""
    nf = NFA()
    ab = [nf.build(r) for r in regexes]
    start = nf.close([a for a, _ in ab])
    ends = [b for _, b in ab]
    ids = {start: 0}
    order = [start]
    tr = []
    i = 0
    while i < len(order):
        S = order[i]
        ms = [m for q in S for (m, _) in nf.tr[q]]
        row = {}
        for p in partition(ms):
            T = nf.close([t for q in S for (m, t) in nf.tr[q] if m & p])
            if not T and not total:
                continue
            if T not in ids:
                ids[T] = len(order)
                order.append(T)
            row[ids[T]] = row.get(ids[T], 0) | p
        tr.append([(m, t) for t, m in row.items()])
        i += 1
    n = len(order)
    lab = [tuple(e in S for e in ends) for S in order]
    # Moore minimisation on byte classes
    allm = partition([m for row in tr for (m, _) in row])
    reps = [(p & -p).bit_length() - 1 for p in allm]
    delta = [[next((t for (m, t) in tr[q] if m >> c & 1), -1) for c in reps] for q in range(n)]
    cl = {}
    part = [cl.setdefault(l, len(cl)) for l in lab]
    while True:
        sig = {}
        new = [sig.setdefault((part[q],) + tuple(part[t] if t >= 0 else -1 for t in delta[q]), len(sig)) for q in range(n)]
        if len(sig) == len(set(part)):
            break
        part = new
    # renumber with start = 0
    ren = {part[0]: 0}
    for q in range(n):
        ren.setdefault(part[q], len(ren))
    k = len(ren)
    nt = [dict() for _ in range(k)]
    finals = [set() for _ in regexes]
    for q in range(n):
        a = ren[part[q]]
        for (m, t) in tr[q]:
            b = ren[part[t]]
            nt[a][b] = nt[a].get(b, 0) | m
        for j, f in enumerate(lab[q]):
            if f:
                finals[j].add(a)
    A = Auto([[(m, t, ()) for t, m in row.items()] for row in nt], 0, finals[0])
    A.finals = [frozenset(f) for f in finals]
    return A, A.finals


# ---- RFC 3986 grammar
PCT = seq(cls('%'), cls(HEX), cls(HEX))


def enc(m):
    return star(alt(cls(m), PCT))


SCHEME = seq(cls(ALPHA), star(cls(SCHEMEC)))
DEC_OCTET = alt(cls(DIGIT), seq(cls(rng('1', '9')), cls(DIGIT)), seq(cls('1'), cls(DIGIT), cls(DIGIT)),
                seq(cls('2'), cls(rng('0', '4')), cls(DIGIT)), seq(cls('25'[0]), cls('5'), cls(rng('0', '5'))))
IPV4 = seq(DEC_OCTET, cls('.'), DEC_OCTET, cls('.'), DEC_OCTET, cls('.'), DEC_OCTET)
H16 = rep(cls(HEX), 1, 4)
LS32 = alt(seq(H16, cls(':'), H16), IPV4)
_hc = seq(H16, cls(':'))
DC = lit('::')


def _pre(n):
    # [ *n( h16 ":" ) h16 ]
    return opt(seq(rep(_hc, 0, n), H16))


IPV6 = alt(seq(rep(_hc, 6, 6), LS32),
           seq(DC, rep(_hc, 5, 5), LS32),
           seq(_pre(0), DC, rep(_hc, 4, 4), LS32),
           seq(_pre(1), DC, rep(_hc, 3, 3), LS32),
           seq(_pre(2), DC, rep(_hc, 2, 2), LS32),
           seq(_pre(3), DC, _hc, LS32),
           seq(_pre(4), DC, LS32),
           seq(_pre(5), DC, H16),
           seq(_pre(6), DC))
IPLIT = seq(cls('['), IPV6, cls(']'))
REGNAME = enc(REGNAME1)
HOST = alt(IPLIT, REGNAME)
USERINFO = enc(PASS1)
USER = enc(USER1)
PORT = star(cls(DIGIT))
AUTHORITY = seq(opt(seq(USERINFO, cls('@'))), HOST, opt(seq(cls(':'), PORT)))
SEG = enc(PCHAR1)
SEGNZ = plus(alt(cls(PCHAR1), PCT))
SEGNZNC = plus(alt(cls(SEGNC1), PCT))
ABEMPTY = star(seq(cls('/'), SEG))
ABSOLUTE = seq(cls('/'), opt(seq(SEGNZ, ABEMPTY)))
NOSCHEME = seq(SEGNZNC, ABEMPTY)
ROOTLESS = seq(SEGNZ, ABEMPTY)
QUERY = enc(FRAG1)
FRAG = enc(FRAG1)
HIER = alt(seq(lit('//'), AUTHORITY, ABEMPTY), ABSOLUTE, ROOTLESS, EPS)
RELPART = alt(seq(lit('//'), AUTHORITY, ABEMPTY), ABSOLUTE, NOSCHEME, EPS)
TAIL = seq(opt(seq(cls('?'), QUERY)), opt(seq(cls('#'), FRAG)))
URI = seq(SCHEME, cls(':'), HIER, TAIL)
RELREF = seq(RELPART, TAIL)
URIREF = alt(URI, RELREF)

if __name__ == '__main__':
    A, _ = dfa_multi([URIREF])
    print(A.n, len(A.final))
    for w in ['', 'http://a:b@[::1.2.3.4]:80/p?q#f', 'a:b', '1:b', '//[::1::]', '/%2f', '/%2', '//[1:2:3:4:5:6:7::]', '//a:b', '//a:b@', '////']:
        print(repr(w), A.accepts(w.encode()))
    print(dfa_multi([IPV6])[0].n)
