"""P11: query parameters are visited completely and in order, and lookups find the first match by decoded key."""
import itertools
import lab
import words
from lab import Ref, S, N, refs

words.TAGS.update({11: 'size', 12: 'empty', 13: 'key (forward)', 14: 'value (forward)', 15: 'key (backward)', 16: 'value (backward)',
                   17: 'key (it++)', 6: '(it++)-- equals it', 7: 'old position', 21: 'contains', 22: 'count', 23: 'find: index', 24: 'find: is end', 25: 'find: value'})
WHO = {'h_vp': 'url_view::params', 'h_up': 'url::params', 'h_cp': 'url const::params'}
KEY = {'h_vk': 'url_view::params', 'h_uk': 'url::params'}


def expected(t):
    ps = Ref(t).params()
    R = [N(11, len(ps)), N(12, int(not ps))]
    for k, v in ps:
        R += [S(13, refs('P', k)), S(14, refs('P', v))]
    for k, v in reversed(ps):
        R += [S(15, refs('P', k)), S(16, refs('P', v))]
    for k, v in ps:
        R += [S(17, refs('P', k)), N(6, 1), N(7, 1)]
    return R


HEXV = {ord(c): int(c, 16) for c in '0123456789abcdefABCDEF'}


def bits(m):
    return [i for i in range(256) if m >> i & 1]


def decoded(o, t, r):
    """the decoded key: per character the set of bytes it can be on this path"""
    out, i = [], r[0]
    while i < r[1]:
        if t[i] == '%':
            out.append({HEXV[a] << 4 | HEXV[b] for a in bits(o.dom(('P', i + 1))) for b in bits(o.dom(('P', i + 2)))})
            i += 3
        else:
            out.append(set(bits(o.dom(('P', i)))))
            i += 1
    return out


def match(o, t, r, k):
    """True, False or None when both happen on this path"""
    d = decoded(o, t, r)
    if len(d) != len(words.word(k)):
        return False
    sure = True
    for i, s in enumerate(d):
        m = set(bits(o.dom(('K', i))))
        if not s & m:
            return False
        if len(s) > 1 or len(m) > 1:
            sure = False
    return True if sure else None


def one(u, it):
    if len(it) == 2:
        entry, t = it
        want = expected(t)

        def judge(o):
            if o.kind != 'ret':
                return [('%s:throw' % entry, '%s: exception' % WHO[entry])]
            d = words.differ(o, o.recs, want)
            return [('%s:params' % entry, '%s: %s' % (WHO[entry], d))] if d else []
        return lab.run_one(u[entry], entry, [('P', t)], judge, WHO[entry])
    entry, t, k = it
    ps = Ref(t).params()

    def judge(o):
        if o.kind != 'ret':
            return [('%s:throw' % entry, '%s: exception from a lookup' % KEY[entry])]
        ms = [match(o, t, kk, k) for kk, v in ps]
        if None in ms:
            return [('%s:guess' % entry, '%s: a lookup answers without comparing the keys: contains = %s' % (KEY[entry], o.recs[0][2]))]
        i = ms.index(True) if True in ms else len(ps)
        want = [N(21, int(True in ms)), N(22, ms.count(True)), N(23, i), N(24, int(True not in ms))]
        if True in ms:
            want.append(S(25, refs('P', ps[i][1])))
        d = words.differ(o, o.recs, want)
        return [('%s:lookup' % entry, '%s: %s' % (KEY[entry], d))] if d else []
    return lab.run_one(u[entry], entry, [('P', t), ('K', k)], judge, KEY[entry])


def queries(n):
    out = [None]
    for k in range(n + 1):
        for w in itertools.product(['x', '=', '&'], repeat=k):
            out.append(''.join(w))
    for k in range(1, 4):
        for w in itertools.product(['%hh', '=', '&'], repeat=k):
            if '%hh' in w:
                out.append(''.join(w))
    return out + ['x/?:@=x/?:@=&?', 'x=/&:@']


def main():
    deep = lab.thorough()
    jobs = []
    ctx = [('', ''), ('s://x/x', '#x=x&x'), ('x', '#'), ('//', '')] if deep else [('', '#x=x&'), ('s://x/=&', '')]
    for i, q in enumerate(queries(7 if deep else 4)):
        for j, (pre, suf) in enumerate(ctx):
            for e in WHO:
                if deep or q is None or len(q) < 4 or (i + j) % 2:
                    jobs.append((e, pre + ('' if q is None else '?' + q) + suf))
    # one side of every comparison is a constant
    look = [('?x=y', 'a'), ('?xx=y&x=z&x=w', 'a'), ('?xx=y&x=z', 'ab'), ('?%6h=y&x=z', 'a'), ('?%hh=y', 'a'), ('?%h1=', '\\1'), ('?%41=y&x', 'A'),
            ('?a=y&ab=z&a=w', 'x'), ('?a=1&b=2&a=3', 'x'), ('?ab=1&cd=2', 'xx'), ('?%61b=1&c=2', 'xx'), ('?', ''), ('?=x&=y', ''), ('', ''), ('', 'x'),
            ('?a&b=1', 'x'), ('?a&b=1', 'xxx'), ('?a&b=1', 'AAA'), ('?a%26b=1', 'AAA'), ('?%c3%a9=1&%Ff=2', 'AA'), ('?%c3=1&%Ff=2', 'A'), ('?abc=1', 'xx'), ('?a=1', 'AA'),
            ('?%00=1&%7f=2&%80=3', 'A'), ('?x', 'a'), ('?x=', 'a'), ('?xxx=a', 'a%62'), ('?%2B=1&+=2', '\\+'),
            ('?%hhx=1', 'ab'), ('?x%hh=1', 'ab'), ('?%hh%hh=1', 'ab'), ('?%hhx%hh=1', 'abc')]
    # constant keys, every searched key
    vals = ('%00', '%01', '%20', '%25', '%26', '%3D', '%61', '%7F', '%80', '%fF', 'b', '+', '.')
    look += [('?%s%s=1&%s=2' % (a, b, b), 'A' * n) for a in vals for b in vals for n in ((2,) if not deep else (1, 2, 3)) if deep or '%' in a]
    if deep:
        look += [('?' + '&'.join(ks), k) for ks in itertools.product(['a=', 'b=1', '%61=2', 'ab=', '='], repeat=3) for k in ('A', 'AA', '')]
        look += [('?' + '&'.join(ks), k) for ks in itertools.product(['x=', '%hh=1', 'xx=2'], repeat=3) for k in ('a', 'ab', '')]
    for t, k in look:
        for e in KEY:
            jobs.append((e, t, k))
    for t in ['?' + 'z' * 260 + '=z', '?z=' + 'z' * 260, '?' + '&'.join(['z=z'] * 20), '?' + '&' * 20, '?' + '=&' * 20, '/%s?z=z&z=z' % ('z' * 260), '?z=%hh&z#' + 'z=z&' * 40, '?' + '=&' * 60 + 'z']:
        jobs += [(e, t) for e in WHO]
    for t, k in [('?%s=1&%s=2' % ('z' * 20, 'z' * 19), 'a' * 20), ('?%s=1&%s=2' % ('a' * 130, 'b'), 'a' * 129 + 'x'), ('?%s=1&%s=2' % ('a' * 130, 'b'), 'x' + 'a' * 129), ('?' + '&'.join('%s=%d' % (c, i) for i, c in enumerate('abcdefg')), 'x')]:
        jobs += [(e, t, k) for e in KEY]
    F, G, n, und, steps = lab.sweep('iter.cpp', list(WHO) + list(KEY), jobs, one)
    lab.finish('P11', F + G, n, und, steps, len(jobs),
               'per class word: iterators and size() report the parameters of the query in both directions; contains, count and find agree with comparison of the decoded keys')
