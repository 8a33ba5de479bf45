"""What every modification must do: expected components as pieces of the old text P and the argument S."""
import grammar
from absint import *

COMP = ('sc', 'us', 'pw', 'ho', 'po', 'pa', 'qu', 'fr')


def K(s):
    """constant text as cells"""
    return tuple(('V', C(8, ord(c))) for c in s)


class Url:
    """components as cell lists, delimiters as in grammar.py: sc with ':', po with ':', qu with '?', fr with '#'"""

    def copy(self):
        u = Url()
        u.__dict__.update(self.__dict__)
        return u

    def ui_cells(self):
        if self.ui == 0:
            return ()
        return self.us + ((K(':') + self.pw) if self.ui == 2 else ()) + K('@')

    def cells(self):
        return self.sc + (K('//') if self.au else ()) + self.ui_cells() + self.ho + self.po + self.pa + self.qu + self.fr

    def no_authority(self):
        self.au, self.ui, self.ht = 0, 0, 0
        self.us = self.pw = self.ho = self.po = ()


# each: f(url, S) -> modified url; S: argument with .empty, .all, .cut(n) (prefix removed), .part(off_lin, len_lin)
def e_scheme(u, S):
    u.sc = () if S.empty else S.all + K(':')


def drop_userinfo(u):
    u.us = u.pw = ()
    u.ui = 0
    if not u.ho and not u.po:
        u.no_authority()


def e_userinfo(u, S):
    if S.empty or S.ui_empty:
        drop_userinfo(u)
        return
    u.au = 1
    u.ui = S.ui
    u.us, u.pw = S.us, S.pw


def e_user(u, S):
    if S.empty:
        u.us = ()
        if u.ui == 1:
            u.ui = 0
        return
    u.au = 1
    u.us = S.all
    if u.ui == 0:
        u.ui = 1


def set_pw(u, cells):
    u.au = 1
    u.ui = 2
    u.pw = cells


def e_password(u, S):
    if S.empty:
        u.pw = ()
        if u.ui:
            u.ui = 1 if u.us else 0
        return
    set_pw(u, S.all)


def e_password_part(u, S):
    if S.empty:
        return e_password(u, S)
    set_pw(u, S.cut1)


def e_host(u, S):
    u.ht = S.ht
    if S.empty:
        u.ho = ()
        if u.ui == 0 and not u.po:
            u.no_authority()
        return
    u.au = 1
    u.ho = S.all


def no_port(u):
    u.po = ()
    if u.ui == 0 and not u.ho:
        u.no_authority()


def e_port(u, S):
    if S.empty:
        return no_port(u)
    u.au = 1
    u.po = K(':') + S.all


def e_port_part(u, S):
    if S.empty:
        return no_port(u)
    u.au = 1
    u.po = S.all


def e_path(u, S):
    u.pa = S.all
    u.ns = S.num('a_ns')


def e_query(u, S):
    u.qu = () if S.empty else K('?') + S.all
    u.np = S.num('a_np')


def e_query_part(u, S):
    u.qu = S.all
    u.np = S.num('a_np')


def e_fragment(u, S):
    u.fr = () if S.empty else K('#') + S.all


def e_fragment_part(u, S):
    u.fr = S.all


EFFECT = {2: e_scheme, 4: e_userinfo, 5: e_userinfo, 6: e_user, 7: e_password, 8: e_password_part, 9: e_host, 10: e_port, 11: e_port_part,
          12: e_path, 13: e_query, 14: e_query_part, 15: e_fragment, 16: e_fragment_part}


# ------------------------------------------------------------------ reading the state
def settle(st, lins):
    """split the state until every expression is decided to be zero or not; lins: functions state -> affine"""
    work = [st]
    for f in lins:
        nx = []
        for s in work:
            nx += [x for x, z in split_zero(s, f(s))]
        work = nx
    return work


def cut(I, st, tape, spans):
    """content of consecutive spans [len] of a tape from 0 -> [(state, [cells])]; spans: functions state -> affine"""
    work = [st]
    for k in range(len(spans)):
        nx = []
        for s in work:
            o = L0
            for f in spans[:k + 1]:
                o = ladd(o, f(s))
            for t, i in I.locate(s, tape, o):
                if i is None or i == 'unknown':
                    raise AnalysisBroken('part boundary not on the tape')
                nx.append(t)
        work = nx
    out = []
    for s in work:
        cells = s.tapes[tape][1]
        bs = bounds(cells)
        r = []
        o = L0
        i = 0
        for f in spans:
            o = ladd(o, f(s))
            j = next(j for j in range(i, len(bs)) if bs[j] == o)
            # zero-length cells do not occur: take the last equal boundary only for the final span
            r.append(cells[i:j])
            i = j
        out.append((s, r))
    return out


def reg(k):
    return lambda s: aslin(s.regs[k])


def before(I, st):
    """[(state, Url)] the URL as parsed from P"""
    out = []
    for s in settle(st, [reg(k) for k in COMP]):
        au, ui = s.regs['au'][2], s.regs['ui'][2]
        c = lambda n: (lambda s: lconst(n))
        spans = [reg('sc'), c(2 * au), reg('us'), c(int(ui == 2)), reg('pw'), c(int(ui > 0)), reg('ho'), reg('po'), reg('pa'), reg('qu'), reg('fr')]
        for t, p in cut(I, s, 'P', spans):
            u = Url()
            u.au, u.ui, u.ht = au, ui, t.regs['ht'][2]
            u.sc, _, u.us, _, u.pw, _, u.ho, u.po, u.pa, u.qu, u.fr = p
            u.ns, u.np = aslin(t.regs['ns']), aslin(t.regs['np'])
            if '$slack' in t.regs:
                u.fr = ()
            out.append((t, u))
    return out


def norm(st, cells):
    r = []
    for c in cells:
        if c[0] == 'V':
            r.append(c[1][2] & 255 if c[1][0] == 'c' else ('V', c[1]))
        elif c[0] == 'C':
            d = st.fv.get(c[1])
            if isinstance(d, int) and d & (d - 1) == 0:
                r.append(d.bit_length() - 1)
            else:
                r.append(('C', c[1]))
        elif c[0] in 'BO':
            r.append(('B', c[1]))
        else:
            r.append(c[:2])
    return r


def same(I, st, a, b, depth=0):
    """are the two cell lists equal in every concretisation?"""
    x, y = norm(st, a), norm(st, b)
    i = 0
    while i < len(x) and i < len(y) and x[i] == y[i]:
        i += 1
    if i == len(x) and i == len(y):
        return True
    if depth > 6:
        return False
    # a blob facing something else: look at its first byte
    for c, cs in ((x, a), (y, b)):
        if i < len(c) and isinstance(c[i], tuple) and c[i][0] == 'B':
            t0 = st.copy()
            t0.tapes['$a'] = (I.au, tuple(a[i:]), None)
            t0.tapes['$b'] = (I.au, tuple(b[i:]), None)
            for t in I.first(t0, '$a' if c is x else '$b', 0):
                if not same(I, t, t.tapes['$a'][1], t.tapes['$b'][1], depth + 1):
                    return False
            return True
    return False


class Arg:
    def __init__(self, st, cells):
        self.st = st
        self.all = cells
        self.empty = not cells
        self.ui_empty = False

    def num(self, k):
        return aslin(self.st.regs[k])


def arguments(I, st, op):
    """[(state, Arg, accepted?)]: the argument, split until membership in its language is decided"""
    L = I.langs[st.regs['$lang'][1]]
    out = []
    n = total(st.tapes['S'][1])
    for s, z in split_zero(st, n):
        cells = s.tapes['S'][1]
        cells = tuple(c for c in cells if clen(c) != L0)
        if not cells:
            ends = {L.start}
        else:
            c = cells[-1]
            ends = {c[3]} if c[0] == 'C' else set(c[3])
        acc = ends & L.acc
        rej = ends - L.acc
        for part, ok in ((acc, True), (rej, False)):
            if not part:
                continue
            t = s.copy() if acc and rej else s
            if cells and cells[-1][0] in 'BO':
                c = cells[-1]
                if not I.au.can(c[2], frozenset(part), c[5], max(t.lb(c[4]) or 0, 0), exact=not c[4][1]):
                    continue
                nc = c[:3] + (frozenset(part),) + c[4:]
                put_cell(t, c[1], [nc])
                if c[0] == 'O' and len(part) < len(c[3]):
                    t.regs['$unread'] = C(8, 1)
            a = Arg(t, tuple(c for c in t.tapes['S'][1] if clen(c) != L0))
            out.append((t, a, ok))
    return out


def detail(I, t, a, op):
    """split an accepted argument further, as the operation needs -> [(state, Arg)]"""
    if op in (4, 5):
        out = []
        for s in settle(t, [reg('a_us'), reg('a_pw')]):
            ui = s.regs['a_ui'][2]
            c = lambda n: (lambda s: lconst(n))
            spans = [reg('a_us'), c(int(ui == 2)), reg('a_pw')]
            for x, p in cut(I, s, 'S', spans):
                b = Arg(x, tuple(c for c in x.tapes['S'][1] if clen(c) != L0))
                b.us, _, b.pw = p
                b.ui = ui
                # "" and, for the part, "@"
                b.ui_empty = ui != 2 and not b.us
                out.append((x, b))
        return out
    if op == 8 and not a.empty:
        out = []
        for x, p in cut(I, t, 'S', [lambda s: L1]):
            b = Arg(x, tuple(c for c in x.tapes['S'][1] if clen(c) != L0))
            b.cut1 = b.all[1:]
            out.append((x, b))
        return out
    if op in (9,):
        L = I.langs[t.regs['$lang'][1]]
        out = []
        if a.empty:
            a.ht = 0
            return [(t, a)]
        c = a.all[-1]
        ends = {c[3]} if c[0] == 'C' else set(c[3])
        v4, v6 = ends & L.fin[1], ends & L.fin[2]
        for part, ht in ((v4, 2), (v6, 3), (ends - v4 - v6, 1)):
            if not part:
                continue
            x = t.copy()
            c = x.tapes['S'][1][-1]
            if c[0] in 'BO':
                if not I.au.can(c[2], frozenset(part), c[5], max(x.lb(c[4]) or 0, 0), exact=not c[4][1]):
                    continue
                put_cell(x, c[1], [c[:3] + (frozenset(part),) + c[4:]])
            b = Arg(x, tuple(c for c in x.tapes['S'][1] if clen(c) != L0))
            b.ht = ht
            out.append((x, b))
        return out
    return [(t, a)]


OBS = ['encoded_url', 'encoded_origin', 'scheme', 'encoded_authority', 'encoded_userinfo', 'userinfo_part', 'encoded_user',
       'encoded_password', 'encoded_host_and_port', 'encoded_host', 'port', 'port_part', 'encoded_path', 'encoded_query',
       'query_part', 'encoded_fragment', 'fragment_part']


def lengths(u):
    g = {k: total(getattr(u, k)) for k in COMP}
    g['ns'], g['np'] = u.ns, u.np
    return g


def compare(I, st, OUT, u, fail):
    """every observer against the expected URL u; fail(kind, observer, what); returns the number of obligations"""
    def m(off, w):
        e = st.mem.get((OUT, off))
        return e[1] if e and e[0] == w else ('t', 0)
    n = 0
    cells = u.cells()
    tot = total(cells)
    p, ln = m(0, 8), aslin(m(8, 8))
    base = None
    if ln is None or ln != tot:
        fail('effect', 'encoded_url', 'has length %s, expected %s' % (lstr(ln) if ln else '?', lstr(tot)))
        return 1
    if tot != L0:
        if p[0] != 'p' or p[1] in st.dead:
            fail('effect', 'encoded_url', 'refers to released or unknown storage')
            return 1
        base = p
        ok = False
        t0 = st.copy()
        t0.tapes['$E'] = (I.au, tuple(cells), None)
        for t, got in I.get_range(t0, p[1], p[2], tot, None):
            ok = True
            n += 1
            cells = t.tapes['$E'][1]
            if got is None or not same(I, t, got, cells):
                fail('effect', 'encoded_url', 'has the wrong characters: "%s" instead of "%s"' % (sample_cells(I, t, got or ()), sample_cells(I, t, cells)))
                return n
        if not ok:
            fail('effect', 'encoded_url', 'is not inside its storage')
            return 1
    # terminating null
    d = m(304, 8)
    n += 1
    if d[0] != 'p':
        fail('nul', 'data', 'is not a valid pointer')
    elif d[1].startswith('@'):
        if tot != L0 or I.gload(st, d[1], aslin(('l', d[2]))[0], 1) != C(8, 0):
            fail('nul', 'data', 'is not the URL')
    else:
        if base is not None and (d[1] != base[1] or d[2] != base[2]):
            fail('nul', 'data', 'is not the start of the URL')
        else:
            for t, v in I.read8(st.copy(), d[1], ladd(d[2], tot), None):
                if v != C(8, 0):
                    fail('nul', 'data', 'is not null terminated')
    E = expected(lengths(u), u.au, u.ui)
    for i, nm in enumerate(OBS):
        off, l2, dl = E[nm]
        if dl and l2 != L0:
            if dl == 'head':
                off = ladd(off, L1)
            l2 = lsub(l2, L1)
        q, v = m(16 * i, 8), aslin(m(16 * i + 8, 8))
        n += 1
        if v is None or v != l2:
            fail('effect', nm, 'has length %s, expected %s' % (lstr(v) if v else '?', lstr(l2)))
        elif l2 != L0 and (q[0] != 'p' or q[1] != base[1] or lsub(q[2], base[2]) != off):
            fail('effect', nm, 'starts at the wrong place')
    for off, nm, x in ((272, 'segments().size', u.ns), (280, 'params().size', u.np)):
        n += 1
        v = aslin(m(off, 8))
        if v is None or v != x:
            fail('effect', nm, 'is %s, expected %s' % (lstr(v) if v else '?', lstr(x)))
    for off, nm, x in ((288, 'host_type', u.ht), (292, 'has_authority', u.au), (296, 'has_userinfo', int(u.ui > 0))):
        n += 1
        v = m(off, 4)
        if v != C(32, x):
            fail('effect', nm, 'is %s, expected %d' % (v[2] if v[0] == 'c' else v[0], x))
    return n


from spec import expected


def sample_cells(I, st, cells):
    st = st.copy()
    st.tapes['$x'] = (I.au, tuple(cells), None)
    w = sample_tape(st, '$x')
    return ''.join(chr(c) if 32 <= c < 127 else '\\x%02x' % c for c in w)


def check(I, st, op, OUT, fail, kinds=('accept', 'effect', 'throw', 'nul')):
    """one exit of `modify, then observe`; fail(kind, construct, text, state)"""
    threw = st.mem.get((OUT, 300))
    if threw is None or threw[1][0] != 'c':
        raise AnalysisBroken('exit without outcome')
    threw = threw[1][2]
    try:
        st.tighten()
    except Infeasible:
        return 0
    if st.facts and vacuous(st):
        return 0
    rep = fail

    def fail(kind, nm, what, s):
        if not vacuous(s):
            rep(kind, nm, what, s)
    oom = '$oom' in st.regs
    n = 0
    eff = EFFECT[op]
    for s, a, ok in arguments(I, st, op):
        n += 1
        if threw and ok and not oom:
            fail('accept', 'reject', 'rejects the valid argument', s)
            continue
        if not threw and not ok:
            fail('accept', 'accept', 'accepts the invalid argument', s)
            continue
        if not threw and '$unread' in s.regs:
            fail('accept', 'unread', 'accepts an argument it did not examine', s)
            continue
        if threw:
            if not {'throw', 'nul'} & set(kinds):
                continue
            for t, u in before(I, s):
                def f(kind, nm, what, t=t):
                    fail('throw' if kind == 'effect' else kind, nm, 'threw, but %s() %s' % (nm, what), t)
                n += compare(I, t, OUT, u, f)
            continue
        if not {'effect', 'nul'} & set(kinds):
            continue
        for t, b in detail(I, s, a, op):
            for x, u in before(I, t):
                b.st = x
                # the cells of the argument may have been refined by splitting P's
                b2 = refresh(I, x, b, op)
                u = u.copy()
                eff(u, b2)

                def f(kind, nm, what, x=x):
                    fail(kind, nm, '%s() %s' % (nm, what), x)
                n += compare(I, x, OUT, u, f)
    return n


def refresh(I, st, a, op):
    """the argument pieces of a (possibly refined) state"""
    if op in (4, 5):
        ui = st.regs['a_ui'][2]
        (x, p), = cut(I, st, 'S', [reg('a_us'), lambda s: lconst(int(ui == 2)), reg('a_pw')])
        b = Arg(st, tuple(c for c in st.tapes['S'][1] if clen(c) != L0))
        b.us, _, b.pw = p
        b.ui, b.ui_empty = a.ui, a.ui_empty
        return b
    b = Arg(st, tuple(c for c in st.tapes['S'][1] if clen(c) != L0))
    if op == 8:
        b.cut1 = b.all[1:]
    if op == 9:
        b.ht = a.ht
    return b
