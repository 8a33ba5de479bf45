"""P16: after modifications the text of a URL parses back to the components the URL reports."""
import lab
import words
from lab import C

T = {33: 'exception', 40: 'text', 81: 'observer', 82: 'operation', 83: 'scheme', 84: 'authority', 85: 'path'}
OPS = ['set_encoded_url', 'set_encoded_origin', 'set_scheme', 'set_encoded_authority', 'set_encoded_userinfo', 'set_userinfo_part', 'set_encoded_user', 'set_encoded_password', 'set_password_part',
       'set_encoded_host', 'set_port', 'set_port_part', 'set_encoded_path', 'set_encoded_query', 'set_query_part', 'set_encoded_fragment', 'set_fragment_part', 'set_user', 'set_password', 'set_host',
       'set_query', 'set_fragment', 'set_port(unsigned)', 'normalize', 'segments::insert_encoded', 'segments::insert', 'segments::erase', 'segments::erase(last)', 'segments::replace', 'segments::replace_encoded']
OBS = ['', 'the text is rejected by the parser', 'encoded_origin()', 'scheme()', 'encoded_authority()', 'encoded_userinfo()', 'userinfo_part()', 'encoded_user()', 'encoded_password()', 'encoded_host_and_port()',
       'encoded_host()', 'port()', 'port_part()', 'encoded_path()', 'encoded_query()', 'query_part()', 'encoded_fragment()', 'fragment_part()', 'segments().size()', 'params().size()', 'host_type()', 'has_userinfo()', 'has_authority()']


def one(u, it):
    words.TAGS.update(T)
    entry, t, a, b = it

    def judge(o):
        if o.kind != 'ret':
            return [('throw', 'exception outside the modification')]
        r = list(o.recs)
        if r[-1][1] == 81 or r[-1][1] < 81:
            return []
        # the last modification left text and components apart
        i = max(k for k, x in enumerate(r) if x[1] == 82)
        op, txt, ob, sc, au, path = r[i][2], r[i + 2], r[i + 3][2], r[i + 4][2], r[i + 5][2], r[i + 6][2:]
        ch = [words.show(o, [k])[1:-1] for k in path]
        seg = ''.join(ch).split('/')[0]
        if au and ch and ch[0] != '/':
            shape = 'rootless path after authority'
        elif not au and ch[:2] == ['/', '/']:
            shape = 'path starting with // without authority'
        elif not sc and not au and ':' in seg:
            shape = 'colon in the first segment without scheme'
        else:
            shape = 'other'
        key = '%s:%s' % (OPS[op].split('(')[0], shape.replace(' ', '-'))
        what = OBS[ob] if ob == 1 else '%s differs' % OBS[ob]
        ops = [OPS[x[2]] for x in r if x[1] == 82]
        return [(key, '%s on "%s" leaves %s (%s); read back, %s' % (' then '.join(ops), o.sample(), words.show(o, txt[2:]), shape, what))]
    ws = [('P', t)] if t is not None else []
    return lab.run_one(u[entry], entry, ws, judge, 'url', extra=(C(32, a), C(32, b)))


ONE = ['z:', '/z', 'z/z', 'z', '/', '/z/z', 'z:z', 'z:z/z', 'z:/z', 'z:z?z#z', '//z', 'z://z@z:9/z?z=z&z#z', '//:z@z', '//:@[::]:', 'z://:9', '//z:', '//@/z', '//1.2.3.4//z', '?z', '#', 'z:#z', 'z://', '//', '////', '/z//z', 'z//z',
       'z:/z//z?z', '//z/', '//z//', 'z://z//z', './z:z', '/z:z', 'z:z:z', '?', '?#', '//z?z', '//z@', '//z:z@z']
TWO = ['z:z', '/z/z', 'z://z@z:9/z?z=z&z#z', '//:z@z']


def main():
    deep = lab.thorough()
    jobs = []
    n = len(OPS)
    for a in range(n):
        for t in ONE + [None]:
            jobs.append(('h_hist' if t is not None else 'h_hist0', t, a, -1))
        for b in range(n):
            for t in (ONE if deep else TWO) + [None]:
                jobs.append(('h_hist' if t is not None else 'h_hist0', t, a, b))
    F, G, cnt, und, steps = lab.sweep('hist.cpp', ['h_hist', 'h_hist0'], jobs, one, chunk=60)
    lab.finish('P16', F + G, cnt, und, steps, len(jobs), 'after one and after two modifications with fixed arguments, a view of the text reports what the URL reports; nothing faults')
