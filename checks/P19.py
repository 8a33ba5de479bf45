"""P19: looking at a URL changes nothing."""
import lab
import words
import report
from lab import C

WHO = {'h_cview': 'url_view', 'h_curl': 'url', 'h_curl0': 'url (empty)'}


def m_freeze(I, st, av, ins, name):
    if av[0][0] != 'p':
        raise lab.AnalysisBroken('freeze')
    st.regs['$frozen'] = ('x', frozenset([av[0][1]]) | frozenset(st.tapes))
    return [('ret', st, None)]


def m_thaw(I, st, av, ins, name):
    st.regs.pop('$frozen', None)
    return [('ret', st, None)]


MODELS = [(r'^@verif_freeze$', m_freeze), (r'^@verif_thaw$', m_thaw)]


def one(u, it):
    entry, t, k, w = it
    ws = ([('P', t)] if t is not None else []) + [('K', k)]

    def judge(o):
        return [('throws:%s:%d' % (entry, w), '%s: an observer of a valid URL throws' % WHO[entry])] if o.kind != 'ret' else []
    return lab.run_one(u[entry], entry, ws, judge, WHO[entry], extra=(C(32, w),), extra_models=MODELS, kinds=report.FAULTS + ('shared-write',))


URLS = ['', 'z:', '/z', 'z/z', 'z:z?z#z', '//z', 'z://z@z:9/z?z=z&z#z', '//:z@z', '//z:z@', '//:@[::]:', 'z://:9', '//z:', '//@z', '?z', '#', '?', '#z', 'z://', '//1.2.3.4//z', '/%hh/z?%41=%42z&z#%hh', '/%20/z%21/?%22=z%23&z#', '/z?%hh=z', '/z?z=%hh',
        '//%hh:z%2f@z%3d/', '//z@%hh', '//z:z%hh@', '?z=z&=&z&', '\\http://z/', 'z//z/', '//', '/', 'ss:']


def main():
    deep = lab.thorough()
    jobs = []
    for t in URLS + (['z:' + 'z' * 260, '//' + 'z' * 130 + '/' + '/z' * 20 + '?' + 'z=z&' * 20] if deep else ['z:' + 'z' * 60 + '/z?' + 'z' * 30]):
        for e in ('h_cview', 'h_curl'):
            jobs += [(e, t, '', 0), (e, t, '', 1)] + [(e, t, k, 2) for k in ('a', '')]
    jobs += [('h_curl0', None, 'a', w) for w in (0, 1, 2)]
    F, G, n, und, steps = lab.sweep('const.cpp', list(WHO), jobs, one, defs=['_GLIBCXX_ASSERTIONS'])
    lab.finish('P19', F + G, n, und, steps, len(jobs), 'between freeze and thaw no store, block copy or release reaches the observed object, its storage or any string given to it, nor a variable of static storage duration')
