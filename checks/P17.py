"""P17: assigning a URL copies it."""
import lab
import words
from lab import C, S, N

T = {33: 'exception', 40: 'text and terminator', 41: 'encoded_url()', 80: 'capacity() >= size()', 81: 'observers disagree with the text'}
URLS = ['', 'z:', '/z', 'z/z', 'z:z?z#z', '//z', 'z://z@z:9/z?z=z&z#z', '//:z@z/', '//:@[::]:', '//1.2.3.4/z/z', '//z:', '?z', '#', 'z://', '//z/zzzzzzzz?zz=z&z=z']


def one(u, it):
    words.TAGS.update(T)
    entry, t, q, mode, oom = it
    who = 'url::operator='
    P, Q = [[(n, i) for i in range(len(words.word(w)))] if w is not None else [] for n, w in (('P', t), ('Q', q))]
    c = [ord(x) for x in '//c/d']

    def text(x):
        return [S(40, x + [0]), S(41, x), N(80, 1), N(81, 0)]

    def judge(o):
        if o.kind != 'ret':
            return [] if '$oom' in o.st.regs else [('throw', '%s: an exception leaves it' % who)]
        if not o.recs:
            return []
        threw = o.recs[0][2]
        if threw and '$oom' not in o.st.regs:
            return [('throws', '%s throws although no allocation failed' % who)]
        a = P if threw or mode == 1 else c if mode == 3 else Q
        b = c if mode == 2 else Q
        d = words.differ(o, o.recs[1:], text(a) + text(b))
        kind = 'self' if mode == 1 else 'failed' if threw else 'copy'
        if d:
            n = next(k for k in range(1, len(o.recs) + 1) if k == len(o.recs) or words.differ(o, o.recs[k:k + 1], (text(a) + text(b))[k - 1:k]))
            return [('%s:%s' % (kind, 'target' if n <= 4 else 'source'), '%s%s: %s' % (who, {'self': ' (self)', 'failed': ' (allocation failed)', 'copy': ''}[kind], ('target: ' if n <= 4 else 'source: ') + d))]
        return []
    ws = ([('P', t)] if t is not None else []) + ([('Q', q)] if q is not None else [])
    return lab.run_one(u[entry], entry, ws, judge, who, extra=(C(32, mode),) if entry == 'h_assign' else (), alloc_fails=oom)


def main():
    jobs = []
    deep = lab.thorough()
    for i, t in enumerate(URLS):
        for j, q in enumerate(URLS):
            jobs.append(('h_assign', t, q, 0, False))
            if deep or i % 3 == j % 3:
                jobs += [('h_assign', t, q, m, False) for m in (2, 3)] + [('h_assign', t, q, 0, True)]
        jobs += [('h_assign', t, 'z', 1, False), ('h_assign4', None, t, 4, False), ('h_assign4', None, t, 4, True), ('h_assign5', t, None, 5, False)]
    long = ['z:' + 'z' * 260, '//' + 'z' * 130 + '/' + 'z' * 130 + '?z#z', 'z://z@z:9/' + 'z/' * 20 + '?z=z&z#' + 'z' * 70]
    for t in long:
        for q in long + ['', '/z']:
            jobs += [('h_assign', t, q, 0, False), ('h_assign', q, t, 0, False), ('h_assign', t, q, 2, False), ('h_assign', q, t, 3, False), ('h_assign', q, t, 0, True)]
        jobs += [('h_assign', t, 'z', 1, False), ('h_assign4', None, t, 4, False), ('h_assign5', t, None, 5, False)]
    F, G, n, und, steps = lab.sweep('hist.cpp', ['h_assign', 'h_assign4', 'h_assign5'], jobs, one)
    lab.finish('P17', F + G, n, und, steps, len(jobs), 'text, terminator and observers of target and source compared with the expected text after assignment, also after a failed allocation and after changing either')
