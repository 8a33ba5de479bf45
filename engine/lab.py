"""Runs many class words through an entry and compares what it reports with a reference decomposition."""
import os
import re
from absint import C
import automata as A
import front
import par
import report
import words
from absint import AnalysisBroken

URL = re.compile(r'^(?:([A-Za-z][^:/?#@\[\]%]*):)?(//(?:([^/?#@]*)@)?(\[[^\]]*\]|[^/?#:@]*)(:[0-9]*)?)?([^?#]*)(\?[^#]*)?(#.*)?$')
IPV4 = re.compile(r'^[0-9]+(\.[0-9]+){3}$')


class Ref:
    """decomposition of a class word by a representative; parts are (begin, end) index pairs or None"""

    def __init__(self, t):
        self.t = t
        m = URL.match(t)
        g = lambda k: (m.start(k), m.end(k)) if m.group(k) is not None else None
        self.scheme = g(1)
        self.auth = (m.start(2) + 2, m.end(2)) if m.group(2) is not None else None
        self.userinfo, self.host, self.port = g(3), g(4), g(5)
        self.path, self.query, self.frag = g(6), g(7), g(8)
        if self.userinfo:
            b, e = self.userinfo
            k = t.find(':', b, e)
            self.user, self.pw = ((b, e), None) if k < 0 else ((b, k), (k + 1, e))
        else:
            self.user = self.pw = None

    def segments(self):
        b, e = self.path
        if b == e:
            return []
        if self.t[b] == '/':
            b += 1
        out = []
        for i in range(b, e + 1):
            if i == e or self.t[i] == '/':
                out.append((b, i))
                b = i + 1
        return out

    def params(self):
        """[(key, value or None)]: a key runs to '=', a value to '&'"""
        if not self.query:
            return []
        b, e = self.query
        out = []
        while b < e:
            b += 1
            k = self.t.find('=', b, e)
            if k < 0:
                out.append(((b, e), None))
                break
            a = self.t.find('&', k, e)
            a = e if a < 0 else a
            out.append(((b, k), (k + 1, a)))
            b = a
        return out


def refs(nm, r):
    return tuple((nm, i) for i in range(r[0], r[1])) if r else ()


def S(tag, content):
    return ('s', tag) + tuple(content)


def N(tag, v):
    return ('i', tag, v)


HEXD = '0123456789ABCDEF'


def enc(o, rs, keep):
    """the bytes of `rs` with those outside the set `keep` percent-encoded, on this path"""
    out = []
    for r in rs:
        if o.dom(r) & ~keep:
            out += [0x25, ('hi', r), ('lo', r)]
        else:
            out.append(r)
    return tuple(out)


def dec(t, nm, r):
    """the decoded text of the positions r = (begin, end) of template t"""
    out = []
    i, e = r if r else (0, 0)
    while i < e:
        if t[i] == '%':
            out.append(('pct', (nm, i + 1), (nm, i + 2)))
            i += 3
        else:
            out.append((nm, i))
            i += 1
    return tuple(out)


def accepts(o, rs, au):
    """is the text of `rs` in the language of the complete DFA `au`?  True, False, or None if this path says both"""
    S = {au.start}
    for r in rs:
        d = o.dom(r)
        S = {q for s in S for m, q, _ in au.trans[s] if m & d}
    a = {q in au.final for q in S}
    return a.pop() if len(a) == 1 else None


def valid(o, rs, keep):
    """is the text of `rs` made of bytes of `keep` and percent escapes?  True, False, or None if this path says both"""
    pct = 1 << 0x25
    keep &= ~pct
    kinds = [keep & ~A.HEX, keep & A.HEX, A.HEX & ~keep, pct, A.ALL & ~(keep | A.HEX | pct)]
    seen = set()

    def go(i, need):
        if len(seen) == 2:
            return
        if i == len(rs):
            seen.add(need == 0)
            return
        d = o.dom(rs[i])
        for k, m in enumerate(kinds):
            if not d & m:
                continue
            if need:
                if k in (1, 2):
                    go(i + 1, need - 1)
                else:
                    seen.add(False)
            elif k in (0, 1):
                go(i + 1, 0)
            elif k == 3:
                go(i + 1, 2)
            else:
                seen.add(False)
    go(0, 0)
    return seen.pop() if len(seen) == 1 else None


def run_one(u, entry, ws, judge, ctx, kinds=report.FAULTS, **kw):
    """-> (findings, obligations, undecided).  judge(out) -> [(key, text)]"""
    L = words.Lab(u, entry, [(n, words.word(t)) for n, t in ws], **kw)
    label = '%s %s' % (ctx, ' '.join('%s="%s"' % (n, t) for n, t in ws))
    F, und, n = [], [], 0
    try:
        outs = L.run()
    except AnalysisBroken as e:
        outs, und = L.outs, ['%s: %s' % (label, e)]
    for o in outs:
        n += 1
        for key, text in judge(o):
            F.append(report.Finding(key, '%s [for all bytes of the classes like %s]' % (text, o.sample()), ctx, {'imprecise': o.st.imprecise, 'word': label}))
    G, notes = report.faults(L.I, kinds=kinds, ctx='')
    und += ['%s: %s' % (label, x) for x in notes if x.startswith('unknown')]
    if not outs and not und and not G:
        und.append('%s: no outcome' % label)
    return F, G, n, und, L.I.steps


def sweep(harness, entries, jobs, one, chunk=24, std='c++17', defs=()):
    """jobs: list of arbitrary items; one(units, item) -> result of run_one"""
    u = {e: front.compile_ir(harness, [e], defs=defs, std=std) for e in entries}
    par.LOCAL = u
    jobs = list(jobs)
    k = max(1, min(chunk, len(jobs) // 16))
    parts = [jobs[i::max(1, len(jobs) // k)] for i in range(max(1, len(jobs) // k))]

    def work(part):
        F, G, n, und, steps = {}, {}, 0, [], 0
        for it in part:
            f, g, a, b, c = one(par.LOCAL, it)
            for x in f:
                if x.key not in F or F[x.key].data['imprecise']:
                    F[x.key] = x
            for x in g:
                if x.key not in G or G[x.key].data['imprecise']:
                    G[x.key] = x
            n += a
            und += b
            steps += c
        return list(F.values()), list(G.values()), n, und, steps
    res, und = par.split(par.pmap(work, parts))
    F, G, n, steps = {}, {}, 0, 0
    for f, g, a, b, c in res:
        for D, L in ((F, f), (G, g)):
            for x in L:
                if x.key not in D or D[x.key].data['imprecise']:
                    D[x.key] = x
        n += a
        und += b
        steps += c
    # one line per reason
    seen, out = set(), []
    for x in und:
        w = x.rsplit(': ', 1)[-1]
        if w not in seen:
            seen.add(w)
            out.append(x)
    return list(F.values()), list(G.values()), n, out, steps


def thorough():
    return os.environ.get('VERIF_TIER') == 'thorough'


TRUST = ['clang 18 front end and opt inliner', 'engine/absint.py, engine/exec.py, engine/words.py', 'model/boost/system', 'reference decomposition in engine/lab.py']


def finish(pid, F, n, und, steps, njobs, rule, **more):
    d = {'obligations': n, 'discharged': 0, 'checker_cmd': 'python3 /verif/run.py %s %s' % (pid, os.environ.get('VERIF_TIER', 'quick')),
         'explanation': 'bounded abstract interpretation: every word of byte classes in the sweep is analysed for all bytes of its classes at once, without joins',
         'trusted_base': TRUST, 'class_words': njobs, 'transfer_steps': steps, 'rule': rule}
    d.update(more)
    report.finish(pid, report.unique(F), d, level='other', undecided=und)
