"""P12: inserting, erasing and replacing path segments."""
import automata as A
import lab
import words
from lab import Ref, S, N, refs
import P10

words.TAGS.update({31: 'position', 32: 'end position', 33: 'exception', 34: 'returned position', 35: 'segment at the returned position', 40: 'text and terminator', 41: 'encoded_url', 42: 'scheme', 43: 'authority', 44: 'path',
                   45: 'query', 46: 'fragment', 47: 'host type', 48: 'params().size()', 49: 'segments().size()', 50: 'capacity() >= size()', 51: 'segment'})
OPS = ['insert_encoded', 'insert', 'erase', 'erase (range)', 'replace_encoded', 'replace']


def one(u, it):
    entry, t, a, op, oom = it
    ref = Ref(t if t is not None else '')
    who = 'segments::' + OPS[op]
    old = [refs('P', s) for s in ref.segments()]
    arg = tuple(('Q', i) for i in range(len(words.word(a))))
    nofrag = entry != 'h_segop'

    def judge(o):
        if o.kind != 'ret':
            if '$oom' in o.st.regs and not o.recs:
                return []       # no memory for the URL itself
            return [('%s:throw' % OPS[op], '%s: an exception leaves a non-throwing part' % who)]
        r = list(o.recs)
        if not r:
            return []           # position out of range
        i, j, threw = r[0][2], r[1][2], r[4][2]
        host, npar = r[2][2], r[3][2]
        bad = lambda k, m: [('%s:%s' % (OPS[op], k), '%s at %d: %s' % (who, i, m))]
        good = op in (1, 2, 3, 5) or lab.valid(o, arg, A.PCHAR1)
        if good is None:
            return bad('accept', '%s treats valid and invalid segments alike (%s)' % (who, 'rejects' if threw else 'accepts'))
        failed = '$oom' in o.st.regs
        if threw and op in (2, 3):
            return bad('throw', 'throws')
        if threw and good and not failed:
            return bad('accept', 'rejects a valid segment')
        if not threw and not good:
            return bad('accept', 'accepts an invalid segment')
        new = list(old)
        if not threw:
            x = lab.enc(o, arg, A.PCHAR1) if op in (1, 5) else arg
            if op < 2:
                new[i:i] = [x]
                ret = i + 1
            elif op == 2:
                del new[i]
                ret = i
            elif op == 3:
                del new[i:j]
                ret = i
            else:
                new[i:i + 1] = [x]
                ret = i + 1
        # the texts that spell the new list
        join = []
        for k, s in enumerate(new):
            join += ([0x2f] if k else []) + list(s)
        absolute = [0x2f] + join if new else []
        forms = [absolute]
        b, e = ref.path
        was_abs = e > b and t[b] == '/'
        if new and ref.auth is None and not was_abs and old and len(new[0]):
            forms.append(join)
        if threw:
            forms = [list(refs('P', ref.path))]
        pre = list(refs('P', (0, b)))
        post = list(refs('P', ref.query)) + (list(refs('P', ref.frag)) if not nofrag else [])
        got = r[5:]
        why = None
        for path in forms:
            text = pre + path + post
            want = [S(40, text + [0]), S(41, text), S(42, refs('P', ref.scheme)), S(43, refs('P', ref.auth)), S(44, path), S(45, refs('P', ref.query)),
                    S(46, () if nofrag else refs('P', ref.frag)), N(47, host), N(48, npar), N(49, len(new)), N(50, 1)] + [S(51, s) for s in new]
            if not threw:
                want.append(N(34, ret))
                if ret < len(new):
                    want.append(S(35, new[ret]))
            d = words.differ(o, got, want)
            if d is None:
                return []
            why = why or d
        return bad('after exception' if threw else 'result', why)
    ws = ([('P', t)] if t is not None else []) + [('Q', a)]
    return lab.run_one(u[entry], entry, ws, judge, who, extra=(lab.C(32, op),), alloc_fails=oom)


ENC = ['', 'x', 'A', ':', '%hh', 'AAA', 'xx']
RAW = ['', 'x', 'A', 'AA', '%hh', '/']


def main():
    deep = lab.thorough()
    jobs = []
    pres = ['', 's:', '//x', 's://x@x:9'] if deep else ['', 's:', '//x:9']
    sufs = ['', '?x#', '#x'] if deep else ['', '?x#']
    for p in P10.paths(5 if deep else 4):
        for pre in pres:
            if not P10.ok(pre, p):
                continue
            for suf in sufs:
                t = (pre + p + suf).replace('x', 'z')
                for op in range(6):
                    args = [''] if op in (2, 3) else ENC if op in (0, 4) else RAW
                    if len(p) > 3 and not deep:
                        args = args[:2]
                    for a in args:
                        jobs.append(('h_segop', t, a, op, False))
                        if suf == '?x#' and len(a) < 2 and len(p) < 4:
                            jobs.append(('h_segop2', t, a, op, False))
                            jobs.append(('h_segop', t, a, op, True))
    for op in (0, 1):
        for a in ENC if op == 0 else RAW:
            jobs.append(('h_segop0', None, a, op, False))
            jobs.append(('h_segop0', None, a, op, True))
    for op in range(6):
        for t in ['/z' * 9, 'z' + '/z' * 8, '//z/' + 'z' * 130 + '/z?z#z', 's:/' + '/'.join('z' * k for k in range(1, 8)) + '#z']:
            for a in ['z', 'z' * 130] if op not in (2, 3) else ['']:
                jobs.append(('h_segop', t, a, op, False))
                if len(a) < 2:
                    jobs.append(('h_segop2', t, a, op, False))
    F, G, n, und, steps = lab.sweep('mod.cpp', ['h_segop', 'h_segop2', 'h_segop0'], jobs, one)
    lab.finish('P12', F + G, n, und, steps, len(jobs),
               'per class word, position and operation: text, terminator, observers, segment list and returned iterator equal the reference list operation; on exception everything equals the state before')
