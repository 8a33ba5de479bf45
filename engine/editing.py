"""Analysis of modifications of a URL: parse a string, apply one modification with an arbitrary argument, observe."""
import automata as A
import grammar
from automata import Auto, ALL
from absint import *
from exec import Machine
import models
import re

COLON = A.mask(':')


def annot(d, fn):
    """add actions to a DFA: fn(q, mask, t) -> [(mask, actions)]"""
    rows = []
    for q, row in enumerate(d.trans):
        r = []
        for tr in row:
            for m, ac in fn(q, tr[0], tr[1]):
                if m:
                    r.append((m, tr[1], tuple(ac)))
        rows.append(r)
    a = Auto(rows, d.start, d.final)
    a.finals = getattr(d, 'finals', [d.final])
    return a


def reach(d, m):
    S = {d.start}
    w = [d.start]
    while w:
        x = w.pop()
        for tr in d.trans[x]:
            if tr[0] & m and tr[1] not in S:
                S.add(tr[1])
                w.append(tr[1])
    return S


class Lang:
    """argument language: total automaton, accepting states, registers counted while it is read"""

    def __init__(self, name, auto, regs=(), kinds=None):
        self.name, self.auto, self.regs, self.kinds = name, auto, regs, kinds
        self.never = ()

    def place(self, o):
        self.off = o
        self.start = self.auto.start + o
        self.acc = frozenset(f + o for f in self.auto.final)
        self.ends = getattr(self.auto, 'ends', None)
        self.all = frozenset(q + o for q in (range(self.auto.n) if self.ends is None else self.ends) if q not in self.never)
        self.fin = [frozenset(f + o for f in F) for F in getattr(self.auto, 'finals', [self.auto.final])]


def L_plain(name, regex):
    return Lang(name, A.dfa(regex))


def L_userinfo(name, tail=None):
    N = grammar.Net()
    k, v, sink = N.new(), N.new(), N.new()
    tm = A.mask(tail) if tail else 0

    def loop(a, m, acts):
        N.byte(a, m, acts, a)
        b = N.byte(a, '%', acts)
        c = N.byte(b, A.HEX, acts)
        N.byte(c, A.HEX, acts, a)
        N.byte(b, ALL & ~A.HEX, (), sink)
        N.byte(c, ALL & ~A.HEX, (), sink)
    loop(k, A.USER1, (('inc', 'a_us', 1),))
    N.byte(k, COLON, (('tag', 'co'), ('set', 'a_ui', 2)), v)
    loop(v, A.PASS1, (('inc', 'a_pw', 1),))
    fin = [k, v]
    if tail:
        e = N.new()
        s = N.new()
        for m, t, ac in list(N.tr[k]):
            N.byte(s, m, ac, t)
        N.byte(k, tm, (('tag', 'at'),), e)
        N.byte(v, tm, (('tag', 'at'),), e)
        N.byte(s, tm, (('tag', 'at'),), e)
        N.byte(s, ALL & ~A.USER1 & ~A.mask('%') & ~COLON & ~tm, (), sink)
        N.byte(e, ALL, (), sink)
        fin = [s, e]
    N.byte(k, ALL & ~A.USER1 & ~A.mask('%') & ~COLON & ~tm, (), sink)
    N.byte(v, ALL & ~A.PASS1 & ~A.mask('%') & ~tm, (), sink)
    N.byte(sink, ALL, (), sink)
    return Lang(name, Auto([list(r) for r in N.tr], s if tail else k, fin), ('a_us', 'a_pw', 'a_ui'))


def L_path(name, regex, rootless):
    d = A.dfa(regex)
    live = d.coreach(d.final)
    sl = A.mask('/')

    def fn(q, m, t):
        if t not in live:
            return [(m, ())]
        if rootless and q == d.start:
            return [(m, (('inc', 'a_ns', 1),))]
        return [(m & sl, (('tag', 'pa'), ('inc', 'a_ns', 1))), (m & ~sl, (('tag', 'pa'),))]
    # the start state of a rootless path must not be re-entered
    return Lang(name, annot(d, fn), ('a_ns',))


def L_query(name, part):
    """params: key = no '=' ; value = no '&'"""
    N = grammar.Net()
    s = N.new()
    sink = N.new()
    k = N.new()
    v = N.new()
    eq, amp = A.mask('='), A.mask('&')
    np = (('tag', 'qu'), ('inc', 'a_np', 1))
    qu = (('tag', 'qu'),)

    def loop(a, m):
        N.byte(a, m, qu, a)
        b = N.byte(a, '%', qu)
        c = N.byte(b, A.HEX, qu)
        N.byte(c, A.HEX, qu, a)
        N.byte(b, ALL & ~A.HEX, (), sink)
        N.byte(c, ALL & ~A.HEX, (), sink)
    loop(k, A.FRAG1 & ~eq)
    N.byte(k, eq, qu, v)
    N.byte(k, ALL & ~A.FRAG1 & ~A.mask('%'), (), sink)
    loop(v, A.FRAG1 & ~amp)
    N.byte(v, amp, np, k)
    N.byte(v, ALL & ~A.FRAG1 & ~A.mask('%'), (), sink)
    N.byte(sink, ALL, (), sink)
    if part:
        N.byte(s, '?', np, k)
        N.byte(s, ALL & ~A.mask('?'), (), sink)
        fin = [s, k, v]
    else:
        # first byte as from k, also opening the first parameter
        for m, t, ac in list(N.tr[k]):
            N.byte(s, m, (np if t != sink else ac), t)
        fin = [s, k, v]
    return Lang(name, Auto([list(r) for r in N.tr], s, fin), ('a_np',))


def L_host(name, small=False):
    """small: of the arguments that start with '[' only "[::]", of those that start with a digit only
    "1.1.1.1"  """
    if not small:
        d, fs = A.dfa_multi([A.HOST, A.IPV4, A.IPLIT])
    else:
        N = grammar.Net()
        s, nm, sink = N.new(), N.new(), N.new()
        pa, pb = N.new(), N.new()
        DIG, PC = A.mask('0123456789'), A.mask('%')
        N.byte(sink, ALL, (), sink)
        N.byte(pa, A.HEX, (), pb)
        N.byte(pa, ALL & ~A.HEX, (), sink)
        N.byte(pb, A.HEX, (), nm)
        N.byte(pb, ALL & ~A.HEX, (), sink)
        bad = ALL & ~A.REGNAME1 & ~PC
        N.byte(nm, A.REGNAME1, (), nm)
        N.byte(nm, PC, (), pa)
        N.byte(nm, bad, (), sink)
        N.byte(s, A.REGNAME1 & ~DIG, (), nm)
        N.byte(s, PC, (), pa)
        N.byte(s, bad & ~A.mask('['), (), sink)
        v4 = s
        for ch in '1.1.1.1':
            v4 = N.byte(v4, ch, ())
        b = s
        for ch in '[::]':
            b = N.byte(b, ch, ())
        d = Auto([list(r) for r in N.tr], s, [])
        fs = [frozenset([s, nm, v4, b]), frozenset([v4]), frozenset([b])]
    l = Lang(name, Auto(d.trans, d.start, fs[0]), kinds=True)
    l.auto.finals = fs
    if small:
        l.never = tuple(x for x in range(pb + 1, b) if x != v4)
    return l


NZPASS = A.opt(A.seq(A.alt(A.cls(A.USER1), A.PCT), A.USERINFO))      # no leading ':'


def langs(small=False):
    P = A
    D = {
        'scheme': L_plain('scheme', P.opt(P.SCHEME)),
        'userinfo': L_userinfo('userinfo'),
        'userinfo_part': L_userinfo('userinfo_part', '@'),
        'user': L_plain('user', P.USER),
        'password': L_plain('password', NZPASS),
        'password_part': L_plain('password_part', P.opt(P.seq(P.cls(':'), NZPASS))),
        'host': L_host('host', small),
        'port': L_plain('port', P.PORT),
        'port_part': L_plain('port_part', P.opt(P.seq(P.cls(':'), P.PORT))),
        'query': L_query('query', False),
        'query_part': L_query('query_part', True),
        'fragment': L_plain('fragment', P.FRAG),
        'fragment_part': L_plain('fragment_part', P.opt(P.seq(P.cls('#'), P.FRAG))),
        'path_abempty': L_path('path_abempty', P.ABEMPTY, False),
        'path_noauth_scheme': L_path('path_noauth_scheme', P.opt(P.alt(P.ABSOLUTE, P.ROOTLESS)), True),
        'path_noauth_noscheme': L_path('path_noauth_noscheme', P.opt(P.alt(P.ABSOLUTE, P.NOSCHEME)), True),
    }
    return D


def restrict(L, w):
    r = Lang(L.name, A.pattern(L.auto, w), L.regs, L.kinds)
    return r


# operation number -> (name, argument language or function(regs) -> language)
def path_lang(R):
    if R['au'][2]:
        return 'path_abempty'
    return 'path_noauth_scheme' if R['$slice'][2] else 'path_noauth_noscheme'


OPS = {
    2: ('set_scheme', 'scheme'),
    4: ('set_encoded_userinfo', 'userinfo'),
    5: ('set_userinfo_part', 'userinfo_part'),
    6: ('set_encoded_user', 'user'),
    7: ('set_encoded_password', 'password'),
    8: ('set_password_part', 'password_part'),
    9: ('set_encoded_host', 'host'),
    10: ('set_port', 'port'),
    11: ('set_port_part', 'port_part'),
    12: ('set_encoded_path', path_lang),
    13: ('set_encoded_query', 'query'),
    14: ('set_query_part', 'query_part'),
    15: ('set_encoded_fragment', 'fragment'),
    16: ('set_fragment_part', 'fragment_part'),
}


# ------------------------------------------------------------------ models
def m_new(I, st, av, ins, name):
    n = aslin(av[0])
    if n is None:
        raise AnalysisBroken('allocation of unknown size')
    k = st.regs.get('$alloc', C(8, 0))[2]
    I.wrote(st)
    bad = st.copy()
    out = []
    nm = 'H%d' % k
    st.regs['$alloc'] = C(8, k + 1)
    st.tapes[nm] = (I.au, (('G', n),) if n != L0 else (), 'ptr')
    out.append(('ret', st, ('p', nm, L0)))
    if I.alloc_fails:
        bad.regs['$oom'] = C(8, 1)
        out.append(('throw', bad, '@_ZTISt9bad_alloc'))
    return out


def m_delete(I, st, av, ins, name):
    p = av[0]
    if p[0] == 'c':
        return [('ret', st, None)]
    if p[0] != 'p' or p[2] != L0 or not p[1].startswith('H'):
        I.event('bad-free', 'release of a pointer that was not allocated', st, ins)
        return []
    I.shared(st, p[1], ins)
    if p[1] in st.dead:
        I.event('bad-free', 'storage released twice', st, ins)
        return []
    n = aslin(av[1]) if len(av) > 1 else None
    tot = total(st.tapes[p[1]][1])
    if n is not None and n != tot:
        I.event('bad-free', 'storage released with a different size', st, ins)
    st.dead = st.dead | {p[1]}
    if not I.keep_dead:
        st.tapes[p[1]] = (I.au, (), None)
    return [('ret', st, None)]


def m_arg(I, st, av, ins, name):
    k = av[0][2]
    ln = I.ops[k][1]
    if callable(ln):
        ln = ln(st.regs)
    L = I.langs[ln]
    n = lsym(st.newsym(0)) if L.ends is None else lconst(L.auto.length)
    st.tapes['S'] = (I.au, (('O', fresh(), L.start, L.all, n, ALL),) if n != L0 else (), 'ptr')
    st.regs['$lang'] = ('x', ln)
    st.regs['$op'] = C(8, k)
    for r in L.regs:
        st.regs[r] = C(8, 1) if r == 'a_ui' else C(64, 0)
    out = []
    for s in I.store(st, av[1], mklin(n), ('i', 64), ins):
        out.append(('ret', s, ('p', 'S', L0)))
    return out


def m_mark(I, st, av, ins, name):
    if av and av[0][0] == 'c' and av[0][2]:
        st.regs['$mark'] = C(8, 1)
        if av[0][2] == 2:
            st.regs['$slack'] = C(8, 1)
            st.regs['$wr'] = C(8, 1)
        return [('ret', st, C(32, 0))]
    if I.split:
        return [('ret', st, C(32, 0))]
    generalise(I, st)
    t = st.copy()
    return [('ret', st, C(32, 0)), ('ret', t, C(32, 1))]


def m_check(I, st, av, ins, name):
    I.on_check(I, st.copy(), av[0][1])
    return [('ret', st, None)]


ORDER = ['sc', 'ss', 'us', 'co', 'pw', 'at', 'ho', 'po', 'pa', 'qu', 'fr']


def generalise(I, st):
    """every part of the parsed URL becomes one blob over the part's whole language; absent parts become empty blobs, so
    that URLs with and without the part are described by one state"""
    pk, I.peek = I.peek, 0
    I.fold(st)
    I.peek = pk
    au = I.au
    gno = {v: k for k, v in au.gnames.items()}
    ui, isau = st.regs['ui'][2], st.regs['au'][2]
    new = {}
    for nm in ORDER:
        g = gno.get(nm)
        if nm in ('ss', 'co', 'at') or g is None or nm == 'us' and not ui or nm == 'pw' and ui != 2 or nm == 'po' and not isau:
            continue
        e = entry(I, g, st.regs['ht'][2] if nm == 'ho' else None)
        if e is None:
            raise AnalysisBroken('no unique entry for ' + nm)
        new[nm] = (fresh(), e)
    for tn, (a, cells, mode) in list(st.tapes.items()):
        if not (tn == 'P' or tn.startswith('H')):
            continue
        out = []
        sums = {}
        seen = []
        tail = ()
        for i, c in enumerate(cells):
            if c[0] == 'C' and c[2] is not None:
                g = au.cell_group(c[2], c[3], st.fv[c[1]]) >> 256
            elif c[0] == 'B':
                g = c[5] >> 256
            elif c[0] in 'VG' and i >= 0:
                tail = cells[i:]
                break
            else:
                raise AnalysisBroken('unexpected content after parsing')
            nm = au.gnames.get(g)
            if nm not in ORDER:
                raise AnalysisBroken('unexpected content after parsing')
            if nm not in sums:
                sums[nm] = L0
                seen.append(nm)
            elif seen[-1] != nm and nm not in ('at',):
                raise AnalysisBroken('parts out of order after parsing')
            sums[nm] = ladd(sums[nm], clen(c))
        for nm in ORDER:
            if nm in ('ss', 'co', 'at'):
                if nm in sums:
                    out += [('V', C(8, ord({'ss': '/', 'co': ':', 'at': '@'}[nm])))] * sums[nm][0]
            elif nm in new:
                if nm in ('sc', 'ho') and nm not in sums:
                    continue
                bid, (q, R, m) = new[nm]
                ln = sums.get(nm, L0)
                g = gno[nm]
                w = tuple(aslin(st.regs[r]) if r in ('ns', 'np') else L0 for r in au.gw.get(g, ()))
                out.append(('B', bid, q, R, ln, m) + ((w,) if g in au.gw else ()))
        st.tapes[tn] = (a, tuple(out) + tuple(tail), mode)


def entry(I, g, ht=None):
    """(start, possible ends including the start when the part may be absent, mask) of group g in the full automaton"""
    d = I.__dict__.setdefault('_entry', {})
    if (g, ht) in d:
        return d[g, ht]
    au = I.au
    d[g, ht] = None
    full = range(I.full_off, I.full_off + I.full_n)
    qs = set()
    inn = {}
    for q in full:
        for tr in au.trans[q]:
            inn.setdefault(tr[1], set()).add(au.gid[(q, tr)])
    for q in full:
        if any(au.gid[(q, tr)] == g for tr in au.trans[q]):
            if q == I.full_start or inn.get(q, set()) - {g}:
                qs.add(canon_blob(au, q, g << 256))
    if len(qs) == 1:
        q, ex, m = next(iter(qs))
        seen, w = set(), [q]
        while w:
            x = w.pop()
            for tr in au.out(x, m):
                if tr[1] not in seen:
                    seen.add(tr[1])
                    w.append(tr[1])
        if q not in seen or q in ex:
            if au.gnames[g] not in ('sc', 'ho'):
                ex = ex | {q}
            d[g, ht] = (q, ex, m)
    return d[g, ht]


def canon_blob(au, q, m):
    g = m >> 256
    memo = au.__dict__.setdefault('_cb', {})
    key = (q, g)
    r = memo.get(key)
    if r is None:
        gm = ALL | g << 256

        def outs(x):
            return frozenset(au.out(x, gm))
        o = outs(q)
        q2 = min(x for x in range(q + 1) if outs(x) == o)
        seen = set()
        w = [q2]
        acc = 0
        while w:
            x = w.pop()
            for tr in au.out(x, gm):
                acc |= tr[0]
                if tr[1] not in seen:
                    seen.add(tr[1])
                    w.append(tr[1])
        ex = frozenset(x for x in seen if x in au.final or any(au.gid[(x, tr)] != g for tr in au.trans[x]))
        r = memo[key] = (q2, ex, acc | g << 256)
    return r


MODELS = [(re.compile(p), h) for p, h in [
    (r'^@_Zn[wa]m$', m_new),
    (r'^@_Zd[la]Pvm?$', m_delete),
    (r'^@verif_arg$', m_arg),
    (r'^@verif_mark$', m_mark),
    (r'^@verif_check$', m_check),
]] + models.BASE


def setup(unit, sl, ops, on_check, on_exit=None, alloc_fails=True, max_steps=6000000, entry='h_edit', lang_table=None, optab=None, weights=('a_np', 'a_ns', 'np', 'ns'), small=False, args=4, pat=None):
    """pat: {'P': word, 'S': word}: only URLs and arguments that look like these"""
    base = grammar.url_net(sl, small=True)
    full = grammar.url_net(sl)
    LT = langs(small and pat is None) if lang_table is None else lang_table
    if pat is not None:
        pat = dict(pat)
        base = A.pattern(full, pat['P'])
        if 'S' in pat:
            LT = {n: restrict(LT[n], pat['S']) for n in LT}
    names = sorted(LT)
    au, offs = A.union([base, full] + [LT[n].auto for n in names])
    for n, o in zip(names, offs[2:]):
        LT[n].place(o)
    au.weigh(weights)
    I = Machine(unit.mod, MODELS, max_steps=max_steps, delay=1)
    I.au = au
    I.full_off, I.full_n, I.full_start = offs[1], full.n, offs[1] + full.start
    I.langs = LT
    I.ops = optab or OPS
    I.alloc_fails = alloc_fails
    I.keep_dead = False
    I.fold_joins = True
    I.peek = 2
    I.on_check = on_check
    I.on_exit = on_exit or (lambda *a: None)
    st = State()
    I.split = pat is not None
    n = lsym(st.newsym(0)) if pat is None else lconst(base.length)
    st.tapes['P'] = (au, (('O', fresh(), base.start, frozenset(base.final), n, ALL),) if n != L0 else (), 'ptr')
    for k, v in grammar.regs0().items():
        st.regs[k] = v
    st.regs['$slice'] = C(8, sl[0])
    I.sizes['OUT'] = 4096
    I.start('@' + entry, [('p', 'P', L0), mklin(n), ('p', 'OUT', L0), datavar(st, 32, ops)][:args], st)
    return I
