"""P15: replacing the whole URL, its origin, its authority; numeric ports; normalisation."""
import automata as A
import lab
import words
from lab import C, Ref, S, N, refs

T = {33: 'exception', 40: 'text and terminator', 41: 'encoded_url()', 80: 'capacity() >= size()', 81: 'observers disagree with the text'}
OPS = ['set_encoded_url', 'set_encoded_origin', 'set_encoded_authority', 'set_port', 'normalize', 'normalize_scheme']
LANG = {}


def lang(op):
    if op not in LANG:
        ORI = A.alt(A.EPS, A.seq(A.SCHEME, A.cls(':'), A.HIER))
        LANG[op] = A.dfa_multi([{0: A.URIREF, 1: ORI, 2: A.AUTHORITY}[op]])[0]
    return LANG[op]


def ambiguous(t):
    """joined text that does not parse into the parts it was joined from"""
    scheme, auth, path = t
    return auth and path and path[0] != '/' or not auth and path.startswith('//') or not scheme and not auth and ':' in path.split('/')[0]


def one(u, it):
    words.TAGS.update(T)
    entry, t, a, op, x = it
    ref = Ref(t or '')
    who = 'url::' + OPS[op]
    arg = [('Q', i) for i in range(len(words.word(a)))]
    path = (t or '')[ref.path[0]:ref.path[1]]
    P = lambda b, e: list(refs('P', (b, e)))
    end = len(t or '')

    def judge(o):
        bad = lambda k, m: [('%s:%s' % (OPS[op], k), '%s: %s' % (who, m))]
        if o.kind != 'ret' or not o.recs:
            return bad('throw', 'an exception leaves it')
        threw = o.recs[0][2]
        ok = lab.accepts(o, arg, lang(op)) if op < 3 else True
        if ok is None:
            return bad('accept', '%s valid and invalid arguments alike' % ('rejects' if threw else 'accepts'))
        if bool(threw) == ok:
            return bad('accept', 'rejects a valid argument' if ok else 'accepts an invalid argument')
        pb = ref.path[0]
        sc = ref.scheme[1] + 1 if ref.scheme else 0
        amb = False
        text = None
        if threw:
            text = P(0, end)
        elif op == 0:
            text = arg
        elif op == 1:
            if a == '':
                text, amb = P(pb, end), ambiguous((0, 0, path))
            elif 'A' not in a:
                r = Ref(a)
                text = list(refs('Q', (0, r.path[0]))) + P(pb, end)
                amb = ambiguous((1, r.auth, path))
            else:
                amb = ambiguous((1, 0, path)) or ambiguous((1, 1, path))
        elif op == 2:
            if a == '':
                text, amb = P(0, sc) + P(pb, end), ambiguous((ref.scheme, 0, path))
            else:
                text, amb = P(0, sc) + [0x2f, 0x2f] + arg + P(pb, end), ambiguous((ref.scheme, 1, path))
        elif op == 3:
            b, e = ref.port or (pb, pb)
            text = P(0, b) + ([] if ref.auth else [0x2f, 0x2f]) + [ord(c) for c in ':%d' % x] + P(e, end)
            amb = ambiguous((ref.scheme, 1, path))
        else:
            n = ref.scheme[1] if ref.scheme else 0
            text = [('lower', r) for r in P(0, n)] + P(n, end)
        want = o.recs[1:3] if text is None else [S(40, text + [0]), S(41, text)]
        want = list(want) + [N(80, 1)] + ([N(81, 0)] if not amb else list(o.recs[4:]))
        d = words.differ(o, o.recs[1:], want)
        return bad('result', d) if d else []
    ws = ([('P', t)] if t is not None else []) + [('Q', a)]
    return lab.run_one(u[entry], entry, ws, judge, who, extra=(C(32, op), C(32, x)))


URLS = ['z:', '/z', 'z/z', 'z:z?z#z', '//z', 'z://z@z:9/z?z=z&z#z', '//:z@z/', '//:@[::]:', 'z://:9/z/', '//z:', '//@/z', '?z', '#', 'z:/z#z', 'z://']
ORI = ['', 'z:', 'z://', 'z://z', 'z://z:9', 'z://z@[::]', 'zz://z:z@z:/', 'z:z', 'z:/z/', 'z://z/z', 'zA', 'z:A', 'z://A', 'z://zA', 'z://z/A', 'A://', 'z:AA']
AUT = ['', 'z', 'z:9', ':', ':9', '@', 'z@', 'z:z@z:9', ':z@', '[::]', '[::z]', '[::]:', '1.2.3.4', 'A', 'zA', 'AA', 'z:A', 'z@A', 'z:AA', '[::]A', '[::A', '%hh']
URL = ['', 'z:', 'z', '/z', '//z', 'z://z:z@z:9/z?z&z#z', '//1.2.3.4', '//[::]/', 'A', 'AA', 'z:A', '//A', '/A', '/z?A', '#A', '%A', '%hA', 'z:AA']
PORTS = [0, 7, 9, 10, 19, 80, 99, 100, 101, 256, 1000, 1005, 9999, 10000, 20304, 99999, 1000000, 9999999, 10000001, 100000000, 999999999, 2147483647, 2147483648, 4294967290, 443, 999, 8080, 65535, 65536, 100000, 1234567, 90000000, 123456789, 987654321, 1000000000, 4294967295]


def main():
    deep = lab.thorough()
    jobs = []
    for t in URLS:
        some = t in URLS[:6]
        for op, L in ((0, URL), (1, ORI), (2, AUT)):
            for a in L:
                if some or deep or 'AA' not in a:
                    jobs.append(('h_whole', t, a, op, 0))
        for x in PORTS:
            jobs.append(('h_whole', t, '', 3, x))
    for op, L in ((0, URL), (1, ORI), (2, AUT)):
        for a in L:
            jobs.append(('h_whole0', None, a, op, 0))
    for x in PORTS[:3]:
        jobs.append(('h_whole0', None, '', 3, x))
    for op in (4, 5):
        for s in ['', 's:', 'ss:', 's+s:', 's9-.s:', 'sss:'] + (['ssss:', 's.s9s:'] if deep else []):
            for r in ['', 'z', '//z', '/S', '//S:S@S:9/S?S=S#S']:
                if not (s == '' and r == 'z'):
                    jobs.append(('h_whole', s + r, '', op, 0))
        jobs.append(('h_whole0', None, '', op, 0))
    for t in ['z:' + 'z' * 260, 'z://z:z@z:9/z?' + 'z' * 130 + '#z']:
        for op, L in ((0, ['z' * 260, 'z' * 130 + '://' + 'z' * 130]), (1, ['z' * 130 + '://' + 'z' * 130]), (2, ['z' * 130, 'z' * 70 + ':' + 'z' * 70 + '@' + 'z' * 70 + ':' + '9' * 20])):
            jobs += [('h_whole', t, a, op, 0) for a in L]
            jobs += [('h_whole0', None, a, op, 0) for a in L]
        jobs += [('h_whole', t, '', 3, 65535), ('h_whole', t, '', 4, 0)]
    F, G, n, und, steps = lab.sweep('hist.cpp', ['h_whole', 'h_whole0'], jobs, one)
    lab.finish('P15', F + G, n, und, steps, len(jobs), 'acceptance compared with the argument automaton; resulting text compared byte by byte; observers of the URL compared with observers of a view of its text')
