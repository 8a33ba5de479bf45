"""P10: path segments are visited completely, in order, in both directions."""
import itertools
import lab
import words
from lab import Ref, S, N, refs

words.TAGS.update({1: 'size', 2: 'empty', 3: 'segment (forward)', 4: 'segment (backward)', 5: 'segment (it++)', 6: '(it++)-- equals it', 7: 'old position'})
WHO = {'h_vs': 'url_view::segments', 'h_us': 'url::segments', 'h_cs': 'url const::segments'}


def expected(t):
    segs = Ref(t).segments()
    R = [N(1, len(segs)), N(2, int(not segs))]
    R += [S(3, refs('P', s)) for s in segs]
    R += [S(4, refs('P', s)) for s in reversed(segs)]
    for s in segs:
        R += [S(5, refs('P', s)), N(6, 1), N(7, 1)]
    return R


def one(u, it):
    entry, t = it
    want = expected(t) if t is not None else [N(1, 0), N(2, 1)]

    def judge(o):
        if o.kind != 'ret':
            return [('%s:throw' % entry, '%s: exception' % WHO[entry])]
        d = words.differ(o, o.recs, want)
        return [('%s:segments' % entry, '%s: %s' % (WHO[entry], d))] if d else []
    return lab.run_one(u[entry], entry, [('P', t)], judge, WHO[entry])


def paths(n):
    out = []
    for k in range(n + 1):
        for w in itertools.product(['/', 'x'], repeat=k):
            out.append(''.join(w))
    out += ['%hh', '/%hh', 'x/%hh/', '/%hhx//%hh', '/:@/:', 'x%hh/@:/', '/x%hh/x']
    return out


def ok(pre, p):
    """is pre + p + ... a URL whose path is p"""
    if '//' in pre:
        return p == '' or p[0] == '/'
    if p.startswith('//'):
        return False
    if not pre and ':' in p.split('/')[0]:
        return False
    return True


def main():
    deep = lab.thorough()
    jobs = []
    pres = ['', 's:', '//x', '//', 's://x@[::]:9', '//x:x@'] if deep else ['', 's:', '//x:9']
    sufs = ['', '?/x/', '#/x', '?x#/'] if deep else ['', '?/x#/']
    for p in paths(7 if deep else 5):
        for pre in pres:
            if ok(pre, p):
                for suf in sufs:
                    for e in WHO:
                        jobs.append((e, pre + p + suf))
    for t in ['/' + 'z' * 260, 'z' * 130 + '/' + 'z' * 130, '/z' * 40, 'z/' * 40, '//z' + '/' * 70, '/' + '%hhz/' * 20, '//%s/z/z' % ('z' * 260), '/z/zz?' + '/z' * 130, 'z' * 70 + ':' + 'z/z' * 3 + '#' + '/' * 70, '/a' * 257, 'a' + '/' * 256]:
        jobs += [(e, t) for e in WHO]
    F, G, n, und, steps = lab.sweep('iter.cpp', list(WHO), jobs, one)
    lab.finish('P10', F + G, n, und, steps, len(jobs),
               'per class word: what the iterators and size() report equals the segments of the path, forward, backward and with post-increment')
