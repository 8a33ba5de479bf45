"""Annotated automata: RFC 3986 grammar with register actions that name the parts of a URL.

Every word of the language has exactly one run (the grammar is unambiguous once host kinds are disjoint), so the
registers at the end of a run are the specification of the decomposition."""
import automata as A
from automata import Auto, dfa, cls, seq, alt, star, opt, plus, lit


class FULL:
    USERINFO, USER, IPV4, IPLIT, DIGIT = A.USERINFO, A.USER, A.IPV4, A.IPLIT, A.DIGIT
    ABEMPTY, ABSOLUTE, ROOTLESS, NOSCHEME, FRAG1, SCHEME = A.ABEMPTY, A.ABSOLUTE, A.ROOTLESS, A.NOSCHEME, A.FRAG1, A.SCHEME
    NAME = A.plus(A.alt(A.cls(A.REGNAME1), A.PCT))


class SMALL:
    """one letter per class: words with every combination of parts and lengths (and of segment and parameter counts),
    content generalised afterwards"""
    _a = cls('a')
    USERINFO = USER = star(_a)
    IPV4, IPLIT, DIGIT, NAME = lit('1.1.1.1'), lit('[::]'), A.mask('1'), plus(_a)
    ABEMPTY = star(seq(cls('/'), star(_a)))
    ABSOLUTE = seq(cls('/'), opt(seq(plus(_a), ABEMPTY)))
    ROOTLESS = NOSCHEME = seq(plus(_a), ABEMPTY)
    FRAG1 = A.mask('a=&')
    SCHEME = plus(_a)


T = FULL


class Net:
    """NFA with actions on byte transitions and epsilon moves"""

    def __init__(self):
        self.eps = []
        self.tr = []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.tr) - 1

    def byte(self, a, m, acts, b=None):
        if b is None:
            b = self.new()
        self.tr[a].append((m if isinstance(m, int) else A.mask(m), b, tuple(acts)))
        return b

    def embed(self, a, d, acts, only=None):
        """copy DFA d behind state a; acts: actions or function(mask) -> [(mask, actions)]; returns the exit state"""
        b = self.new()
        ren = [self.new() for _ in range(d.n)]
        live = d.coreach(d.final)
        for q in range(d.n):
            if q not in live:
                continue
            for tr in d.trans[q]:
                if tr[1] not in live:
                    continue
                for m, ac in (acts(tr[0]) if callable(acts) else [(tr[0], acts)]):
                    if m:
                        self.tr[ren[q]].append((m, ren[tr[1]], tuple(ac)))
            if q in d.final:
                self.eps[ren[q]].append(b)
        self.eps[a].append(ren[d.start])
        return b

    def finish(self, start, finals, total=False):
        """epsilon elimination + bisimulation quotient -> Auto (nondeterministic, only useful states)"""
        n = len(self.tr)
        clo = []
        for q in range(n):
            S = {q}
            w = [q]
            while w:
                x = w.pop()
                for y in self.eps[x]:
                    if y not in S:
                        S.add(y)
                        w.append(y)
            clo.append(S)
        tr = [set() for _ in range(n)]
        fin = set()
        for q in range(n):
            for x in clo[q]:
                tr[q] |= set(self.tr[x])
                if x in finals:
                    fin.add(q)
        # useful states
        rev = {}
        for q in range(n):
            for m, t, a in tr[q]:
                rev.setdefault(t, set()).add(q)
        co = set(fin)
        w = list(fin)
        while w:
            x = w.pop()
            for y in rev.get(x, ()):
                if y not in co:
                    co.add(y)
                    w.append(y)
        re = {start}
        w = [start]
        while w:
            x = w.pop()
            for m, t, a in tr[x]:
                if t in co and t not in re:
                    re.add(t)
                    w.append(t)
        use = sorted(re & co | {start})
        part = {q: int(q in fin) for q in use}
        while True:
            sig = {}
            new = {}
            for q in use:
                d = {}
                for m, t, a in tr[q]:
                    if t in part:
                        k = (part[t], a)
                        d[k] = d.get(k, 0) | m
                new[q] = sig.setdefault((part[q], frozenset(d.items())), len(sig))
            if len(set(new.values())) == len(set(part.values())):
                break
            part = new
        ren = {part[start]: 0}
        for q in use:
            ren.setdefault(part[q], len(ren))
        nt = [dict() for _ in ren]
        F = set()
        for q in use:
            a = ren[part[q]]
            if q in fin:
                F.add(a)
            for m, t, ac in tr[q]:
                if t in part:
                    k = (ren[part[t]], ac)
                    nt[a][k] = nt[a].get(k, 0) | m
        return Auto([[(m, t, ac) for (t, ac), m in row.items()] for row in nt], 0, F)


def diff(r1, r2):
    """DFA for L(r1) \\ L(r2)"""
    a, fs = A.dfa_multi([r1, r2])
    return Auto(a.trans, a.start, fs[0] - fs[1])


def inc(*names):
    return tuple(('inc', n, 1) for n in names)


def slash(name):
    """actions for path bytes: '/' also counts a segment"""
    sl = A.mask('/')

    def f(m):
        return [(m & sl, inc(name, 'ns')), (m & ~sl, inc(name))]
    return f


LENS = ('sc', 'us', 'pw', 'ho', 'po', 'pa', 'qu', 'fr', 'ns', 'np')
HT = {'none': 0, 'name': 1, 'ipv4': 2, 'ipv6': 3}


def regs0():
    from absint import C
    r = {k: C(64, 0) for k in LENS}
    r.update(au=C(8, 0), ui=C(8, 0), ht=C(8, 0))
    return r


def marks(st, tn):
    """the part boundaries of the run so far: folding keeps them"""
    from absint import ladd, lconst, aslin
    if tn != 'S' or 'sc' not in st.regs:
        return set()
    R = st.regs
    out = set()
    p = aslin(R['sc'])
    out.add(p)
    ui = R['ui'][2]
    p = ladd(p, lconst(2 * R['au'][2]))
    out.add(p)
    p = ladd(p, aslin(R['us']))
    out.add(p)
    if ui == 2:
        p = ladd(p, lconst(1))
        out.add(p)
        p = ladd(p, aslin(R['pw']))
        out.add(p)
    if ui:
        p = ladd(p, lconst(1))
        out.add(p)
    for k in ('ho', 'po', 'pa', 'qu', 'fr'):
        p = ladd(p, aslin(R[k]))
        out.add(p)
    return out



def authority(N, a, uis=(0, 1, 2), kinds=('empty', 'ipv4', 'ipv6', 'name')):
    """-> exit state.  'ui': 0 no userinfo, 1 user@, 2 user:password@ ; lengths exclude delimiters (password, user)"""
    h = N.new()
    if 0 in uis:
        N.eps[a].append(h)
    # userinfo
    for ui in uis:
        if ui:
            u = N.new()
            N.eps[a].append(u)
            ue = N.embed(u, dfa(T.USER), inc('us'))
            if ui == 1:
                N.byte(ue, '@', [('tag', 'at'), ('set', 'ui', 1)], h)
            else:
                p = N.byte(ue, ':', [('tag', 'co'), ('set', 'ui', 2)])
                pe = N.embed(p, dfa(T.USERINFO), inc('pw'))
                N.byte(pe, '@', [('tag', 'at')], h)
    # host
    x = N.new()
    if 'empty' in kinds:
        N.eps[h].append(x)
    for kind, r in (('ipv4', T.IPV4), ('ipv6', T.IPLIT), ('name', None)):
        if kind not in kinds:
            continue
        d = dfa(r) if r else diff(T.NAME, T.IPV4)
        # the first byte sets the kind
        live = d.coreach(d.final)
        e = N.new()
        ren = {q: N.new() for q in range(d.n)}
        first = N.new()
        N.eps[h].append(first)
        for tr in d.trans[d.start]:
            if tr[1] in live:
                N.byte(first, tr[0], inc('ho') + (('set', 'ht', HT[kind]),), ren[tr[1]])
        for q in range(d.n):
            if q not in live:
                continue
            for tr in d.trans[q]:
                if tr[1] in live:
                    N.byte(ren[q], tr[0], inc('ho'), ren[tr[1]])
            if q in d.final:
                N.eps[ren[q]].append(e)
        N.eps[e].append(x)
    # port
    y = N.new()
    N.eps[x].append(y)
    c = N.byte(x, ':', inc('po'))
    N.eps[c].append(y)
    c2 = N.byte(c, T.DIGIT, inc('po'))
    N.byte(c2, T.DIGIT, inc('po'), c2)
    N.eps[c2].append(y)
    return y


def pathpart(N, a, r, first=False):
    """first: the first segment is not preceded by '/': its first byte counts"""
    d = dfa(r)
    if not first:
        return N.embed(a, d, slash('pa'))
    live = d.coreach(d.final)
    e = N.new()
    ren = {q: N.new() for q in range(d.n)}
    for tr in d.trans[d.start]:
        if tr[1] in live:
            N.byte(a, tr[0], inc('pa', 'ns'), ren[tr[1]])
    f = slash('pa')
    for q in range(d.n):
        if q in live:
            for tr in d.trans[q]:
                if tr[1] in live:
                    for m, ac in f(tr[0]):
                        if m:
                            N.byte(ren[q], m, ac, ren[tr[1]])
            if q in d.final:
                N.eps[ren[q]].append(e)
    return e


def pctloop(N, a, m, acts, pacts=None):
    """a: state; loops over bytes of m and pct-encoded octets with actions"""
    N.byte(a, m, acts, a)
    if T is SMALL:
        return
    b = N.byte(a, '%', acts)
    c = N.byte(b, A.HEX, acts)
    N.byte(c, A.HEX, acts, a)


def query(N, a, key_stops_at_amp=False):
    """'?' params; counts parameters: a new one at '?' and at each '&' that ends a value"""
    e = N.new()
    N.eps[a].append(e)
    k = N.byte(a, '?', inc('qu', 'np'))
    eq, amp = A.mask('='), A.mask('&')
    pctloop(N, k, T.FRAG1 & ~eq & ~(amp if key_stops_at_amp else 0), inc('qu'))
    if key_stops_at_amp:
        N.byte(k, amp, inc('qu', 'np'), k)
    v = N.byte(k, eq, inc('qu'))
    pctloop(N, v, T.FRAG1 & ~amp, inc('qu'))
    N.byte(v, amp, inc('qu', 'np'), k)
    N.eps[k].append(e)
    N.eps[v].append(e)
    return e


def fragment(N, a):
    e = N.new()
    N.eps[a].append(e)
    k = N.byte(a, '#', inc('fr'))
    pctloop(N, k, T.FRAG1, inc('fr'))
    N.eps[k].append(e)
    return e


def hier(N, a, tail, scheme, auths=None):
    """authority / path alternatives from a into tail; auths: None all, 'none', or (ui, kind)"""
    if auths != 'none':
        s1 = N.byte(a, '/', [('tag', 'ss'), ('set', 'au', 1)])
        s2 = N.byte(s1, '/', [('tag', 'ss')])
        y = authority(N, s2) if auths is None else authority(N, s2, (auths[0],), (auths[1],))
        z = pathpart(N, y, T.ABEMPTY)
        N.eps[z].append(tail)
    if auths is None or auths == 'none':
        z = pathpart(N, a, T.ABSOLUTE)
        N.eps[z].append(tail)
        z = pathpart(N, a, T.ROOTLESS if scheme else T.NOSCHEME, True)
        N.eps[z].append(tail)
        N.eps[a].append(tail)


SLICES = [(sc, au) for sc in (0, 1) for au in ['none'] + [(ui, k) for ui in (0, 1, 2) for k in ('empty', 'ipv4', 'ipv6', 'name')]]


def url_net(sl=None, small=False):
    """the annotated automaton of URI-reference, or of one slice of it (scheme?, authority form)"""
    global T
    T = SMALL if small else FULL
    try:
        return _url_net(sl)
    finally:
        T = FULL


def _url_net(sl):
    N = Net()
    s = N.new()
    tail = N.new()
    q = query(N, tail)
    f = fragment(N, q)
    if sl is None or not sl[0]:
        a = N.new()
        N.eps[s].append(a)
        hier(N, a, tail, False, sl and sl[1])
    if sl is None or sl[0]:
        b = N.new()
        N.eps[s].append(b)
        e = N.embed(b, dfa(T.SCHEME), inc('sc'))
        c = N.byte(e, ':', inc('sc'))
        hier(N, c, tail, True, sl and sl[1])
    return N.finish(s, {f})


def runs(au, w):
    """all accepting runs' registers (used for self-checks of the specification only)"""
    R = [(au.start, {})]
    for ch in w:
        nx = []
        for q, r in R:
            for m, t, acts in au.trans[q]:
                if m >> ch & 1:
                    r2 = dict(r)
                    for a in acts:
                        if a[0] == 'inc':
                            r2[a[1]] = r2.get(a[1], 0) + a[2]
                        elif a[0] == 'set':
                            r2[a[1]] = a[2]
                    nx.append((t, r2))
        R = nx
    return [r for q, r in R if q in au.final]


if __name__ == '__main__':
    au = url_net()
    print(au.n, sum(len(x) for x in au.trans))
    for w in ['', 'http://u:p@1.2.3.4:80/a/b?x=1&y#f', '//a@', '//:@', '//a:1', 'a:b/c', 'a/b', '/', '//1.2.3.4.5', '//[::1]:/', '?', '?a&b=1&c=', 'x:/a//b']:
        print(repr(w), runs(au, w.encode()))
