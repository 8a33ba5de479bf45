"""P13: plain setters encode, decoding observers decode."""
import itertools
import re
import automata as A
import lab
import words
from lab import C, Ref, S, N, refs

T = {33: 'exception', 40: 'text and terminator', 50: 'scheme()', 51: 'encoded_user()', 52: 'encoded_password()', 53: 'encoded_host()', 54: 'port()', 55: 'encoded_path()',
     56: 'encoded_query()', 57: 'encoded_fragment()', 58: 'host_type()', 60: 'user()', 61: 'password()', 62: 'host()', 63: 'query()', 64: 'fragment()', 65: 'segment string()',
     66: 'key()', 67: 'value()', 70: 'params()[key]', 71: 'params().at(key)', 72: 'exception from at(key)'}
UNRES = A.mask('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&\'()*+,;=')
USER, PASS, HOST, QUERY = UNRES, UNRES | A.mask(':'), UNRES, A.PCHAR1 | A.mask('/?')
PLAIN = [('set_user', USER), ('set_password', PASS), ('set_host', HOST), ('set_query', QUERY), ('set_fragment', QUERY)]
LITERAL = re.compile(r'^([1-9]?[0-9](\.[1-9]?[0-9]){3}|\[::[0-9a-f]?\])$')      # as far as the arguments below go
HOSTCH = [A.mask(x) for x in ('[', ']', ':', '.', '0', '123456789', 'abcdefABCDEF')]
HOSTCH.append(A.ALL & ~sum(HOSTCH))


def literal(o, rs):
    """is the text an IP literal?  None if this path says both"""
    S = set()
    for w in itertools.product(*[[chr(words.A_sample(o.dom(r) & m)) for m in HOSTCH if o.dom(r) & m] for r in rs]):
        S.add(bool(LITERAL.match(''.join(w).lower())))
    return S.pop() if len(S) == 1 else None


def plain(u, it):
    entry, t, a, op = it
    ref = Ref(t)
    who, keep = PLAIN[op]
    arg = [('Q', i) for i in range(len(words.word(a)))]

    def judge(o):
        bad = lambda k, m: [('%s:%s' % (who, k), '%s: %s' % (who, m))]
        if o.kind != 'ret' or not o.recs:
            return bad('throw', 'an exception leaves it')
        if o.recs[0][2]:
            return bad('throw', 'throws')
        raw = op == 2 and literal(o, arg)
        if raw is None:
            return bad('result', 'treats an address and a name alike')
        x = list(arg) if raw else list(lab.enc(o, arg, keep))
        P = lambda r: list(refs('P', r))
        user, pw, ui = P(ref.user), ref.pw and P(ref.pw), ref.userinfo is not None
        host, port = P(ref.host), P(ref.port)
        auth = ref.auth is not None
        query, frag = P(ref.query), P(ref.frag)
        if op == 0:
            user, ui, auth = x, True, True
        elif op == 1:
            pw, ui, auth = x, True, True
        elif op == 2:
            host, auth = x, True
        elif op == 3:
            query = [0x3f] + x
        else:
            frag = [0x23] + x
        b = ref.scheme
        text = P((0, b[1] + 1)) if b else []
        if auth:
            text += [0x2f, 0x2f]
            if ui:
                text += user + ([0x3a] + pw if pw is not None else []) + [0x40]
            text += host + port
        text += P(ref.path) + query + frag
        want = [S(40, text + [0]), S(50, P(b)), S(51, user), S(52, pw or []), S(53, host), S(54, port[1:]), S(55, P(ref.path)), S(56, query[1:]), S(57, frag[1:])]
        d = words.differ(o, o.recs[1:10], want)
        if d is None:
            d = words.differ(o, o.recs[11:], [S(60 + op, arg)])
        if d:
            return bad('result', d)
        return []
    return lab.run_one(u[entry], entry, [('P', t), ('Q', a)], judge, who, extra=(C(32, op),))


def decode(u, it):
    entry, t = it
    ref = Ref(t)
    D = lambda r: lab.dec(t, 'P', r)
    want = []
    if entry != 'h_curl_dec':
        q, f = ref.query, ref.frag
        host = refs('P', ref.host) if ref.host and t[ref.host[0]:ref.host[0] + 1] == '[' else D(ref.host)
        want = [S(60, D(ref.user)), S(61, D(ref.pw)), S(62, host), S(63, D((q[0] + 1, q[1])) if q else ()), S(64, D((f[0] + 1, f[1])) if f else ())]
    want += [S(65, D(s)) for s in ref.segments()]
    for k, v in ref.params():
        want += [S(66, D(k)), S(67, D(v))]
    who = {'h_view_dec': 'url_view', 'h_url_dec': 'url', 'h_curl_dec': 'url const'}[entry]

    def judge(o):
        d = 'exception' if o.kind != 'ret' else words.differ(o, o.recs, want)
        k = re.match(r'^(does not report |reports one thing too many: )?(\w+)', d).group(2) if d else ''
        return [('%s:decode:%s' % (who, k), '%s: %s' % (who, d))] if d else []
    return lab.run_one(u[entry], entry, [('P', t)], judge, who)


def lookup(u, it):
    """params()[key] and at(key): concrete keys in the query, any argument"""
    entry, q, a = it
    t = 'z:?' + q
    ref = Ref(t)
    who = {'h_view_at': 'url_view', 'h_url_at': 'url'}[entry]
    ps = ref.params()

    def judge(o):
        if o.kind != 'ret':
            return [('%s:at:throw' % who, '%s: exception' % who)]
        # which parameter is the first whose decoded key equals the argument on this path
        key = [o.dom(('Q', i)) for i in range(len(words.word(a)))]
        hit = None
        for k, v in ps:
            txt = [int(t[x[1][1]] + t[x[2][1]], 16) if x[0] == 'pct' else ord(t[x[1]]) for x in lab.dec(t, 'P', k)]
            if len(txt) != len(key) or any(not d >> b & 1 for d, b in zip(key, txt)):
                continue
            if any(d != 1 << b for d, b in zip(key, txt)):
                return [('%s:at' % who, '%s::params()[]: treats equal and different keys alike' % who)]
            hit = (k, v)
            break
        if hit is None:
            want = [S(70, ()), N(72, 1)]
        else:
            x = lab.dec(t, 'P', hit[1])
            want = [S(70, x), S(71, x)]
        d = words.differ(o, o.recs, want)
        return [('%s:at' % who, '%s::params(): %s' % (who, d))] if d else []
    return lab.run_one(u[entry], entry, [('P', t), ('Q', a)], judge, who)


def one(u, it):
    words.TAGS.update(T)
    return {'plain': plain, 'decode': decode, 'lookup': lookup}[it[0]](u, it[1:])


URLS = ['', 'z:', '/z', 'z:z?z#z', '//z', 'z://z@z:9/z?z=z&z#z', '//:z@z', '//z:z@', '//:@[::]:', 'z://:9', '//z:', '//@z', '?z', '#', '?', '#z', 'z://']
ARGS = ['x', 'A', 'AA', 'AAA', '%hh', '%hA', 'A%hh', 'xAx', '[A', '9.9.9.9', '9.9.9.9A', '9.9.9', '[::]', '[::1]A', '[::A', 'AAAA']


def main():
    deep = lab.thorough()
    jobs = []
    for op in range(5):
        for k, t in enumerate(URLS):
            for a in ARGS:
                if len(a) > 3 and '.' not in a and '[' not in a and not deep and k > 5:
                    continue
                if a == 'AAAA' and not deep:
                    continue
                jobs.append(('plain', 'h_plain', t, a, op))
    E = ['%hh', 'z%hh', '%hhz', 'z%hhz', '%25%hh', '%2f%hh%2F']
    forms = ['//{}@', '//z:{}@z', '//:{}@', '//{}', '//z@{}:9', '/{}', '/z/{}/', '{}', 'z:{}', '?{}', '?z={}', '?{}={{}}', '?z&z={}&z', '#{}', '//z?z#{}', 'z://z:z@z/{}?z#z']
    jd = []
    for f in forms:
        for e in E:
            t = f.replace('{{}}', '%3d').format(e)
            jd.append(t)
    jd += ['', '//', 'x', '/x/x', '//x:x@x:9/x?x=x&x=x#x', '//%41:%2f@%7e/%5B?%26=%3d&%3D#%23', '//[::1]/', '//1.2.3.4', '?', '#', '?=', '?&', '?x=&=x']
    if deep:
        jd += [f.replace('{{}}', '%41').format(e) for f in forms for e in ('%hh%hh', '%hhz%hhz')]
    for t in jd:
        for e in ('h_view_dec', 'h_url_dec', 'h_curl_dec'):
            jobs.append(('decode', e, t))
    for q in ['a=b', 'a', 'a&b=c', '=b', '%41=%62%25', 'a=1&a=2', 'ab=%2f&a=x', 'a%3D=y&b=c', 'aa=&a=3&=4', '', 'x=a%00b&%00=0']:
        for a in ['', 'A', 'AA', 'AAA'][:4 if deep else 3]:
            for e in ('h_view_at', 'h_url_at'):
                jobs.append(('lookup', e, q.replace('x', 'q'), a))
    for op in range(5):
        for t in ('z:', 'z://z@z:9/z?z=z&z#z'):
            for a in ('z' * 260, '\\ ' * 90, '%' * 90, 'zA' * 2 + 'z' * 20):
                jobs.append(('plain', 'h_plain', t, a, op))
    for f in forms:
        for e in ('z' * 260, '%2F' * 40, 'z%25' * 20):
            jobs.append(('decode', 'h_view_dec', f.replace('{{}}', '%3d').format(e)))
            jobs.append(('decode', 'h_url_dec', f.replace('{{}}', '%3d').format(e)))
    F, G, n, und, steps = lab.sweep('pct.cpp', ['h_plain', 'h_view_dec', 'h_url_dec', 'h_curl_dec', 'h_view_at', 'h_url_at'], jobs, one, defs=['_GLIBCXX_ASSERTIONS'])
    lab.finish('P13', F + G, n, und, steps, len(jobs),
               'plain setters: bytes the component allows are stored as they are, every other byte as % and two upper-case hexadecimal digits, and the decoded observer returns the argument; '
               'decoded observers: each escape becomes the byte it stands for, everything else stays')
