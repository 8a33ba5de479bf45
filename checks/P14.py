"""P14: scheme names and scheme ids correspond exactly, ignoring case."""
import automata as A
from absint import *
from exec import Machine
import models
import parsing
from parsing import show
import front
import report

NAMES = ['ftp', 'file', 'http', 'https', 'ws', 'wss']


def const_fn(u, entry, args, sizes=()):
    """all exits of a function of constants"""
    out = []
    I = Machine(u.mod, models.BASE, max_steps=100000)
    I.on_exit = lambda I, st, kind, v, ins: out.append((st, kind, v))
    for k, n in sizes:
        I.sizes[k] = n
    I.start('@' + entry, args, State())
    I.run()
    return I, out


def main():
    F, stat = [], {'obl': 0}
    U = {}
    tot = [0, 0]
    # the numbers of the enumerators
    ids = {}
    uk = front.compile_ir('misc.cpp', ['h_known'])
    for i, nm in enumerate(['unknown'] + NAMES):
        I, out = const_fn(uk, 'h_known', [C(32, i)])
        (st, kind, v), = out
        ids[nm] = v[2]
    if len(set(ids.values())) != 7:
        F.append(report.Finding('ids', 'two schemes share a number: %s' % ids, 'scheme.hpp'))
    # string -> scheme, every string
    def ci(w):
        return A.seq(*[A.cls(A.mask(c.lower() + c.upper())) for c in w])
    au, fins = A.dfa_multi([ci(n) for n in NAMES])
    def analyse(entry, u, pat=None):
        F = {}

        def add(key, text, st, e, why=None):
            f = F.get(key)
            imp = st.imprecise or why
            if f is None or f.data['imprecise'] and not imp:
                F[key] = f = report.Finding(key, text, 'string_to_scheme', {'imprecise': imp, 'samples': []})
            if pat is None and len(f.data['samples']) < 60:
                f.data['samples'] += [w for w in samples(parsing.restrict_end(st, 'S', e), 'S') if w not in f.data['samples']]

        def on_exit(I, st, kind, v, ins):
            E, _ = parsing.end_states(st, 'S')
            parts = [(nm, E & f) for nm, f in zip(NAMES, fins)] + [('unknown', E - frozenset().union(*fins))]
            for nm, e in parts:
                if not e:
                    continue
                if pat is None:
                    stat['obl'] += 1
                want = ids[nm] if entry == 'h_scheme' else int(nm != 'unknown')
                w = show(parsing.sample_with_end(st, 'S', e))
                if kind != 'ret':
                    add('%s:throw' % entry, 'throws on "%s"' % w, st, e)
                elif v[0] != 'c' or (v[2] & 0xff) != want:
                    add('%s:%s' % (entry, nm), '%s("%s") is %s, expected %s' % ('string_to_scheme' if entry == 'h_scheme' else 'is_special', w, v[2] if v[0] == 'c' else v[0], want),
                        st, e, v[0] != 'c' and 'result not constant' or None)
        I = parsing.run_view(u, entry, au, au.all, {}, on_exit, nofold=['@' + entry], pat=pat)
        return I, list(F.values()) + report.faults(I, kinds=report.FAULTS + ('locale',))[0]
    for entry in ('h_scheme', 'h_special'):
        u = front.compile_ir('misc.cpp', [entry])
        I, fs = analyse(entry, u)
        F += report.refine(fs, lambda w: analyse(entry, u, dict(w)['S'] if isinstance(w, tuple) else w)[1])
        tot[0] += I.nstates
        tot[1] += I.steps
    # scheme -> string
    u = front.compile_ir('misc.cpp', ['h_scheme_name'])
    for nm in NAMES:
        I, out = const_fn(u, 'h_scheme_name', [C(32, ids[nm]), ('p', 'OUT', L0)], [('OUT', 16)])
        for st, kind, v in out:
            stat['obl'] += 1
            p, n = st.mem.get(('OUT', 0)), st.mem.get(('OUT', 8))
            txt = None
            if kind == 'ret' and p and n and p[1][0] == 'p' and n[1][0] == 'c' and n[1][2] < 64:
                cs = [I.gload(st, p[1][1], aslin(('l', p[1][2]))[0] + i, 1) for i in range(n[1][2])]
                txt = ''.join(chr(c[2]) if isinstance(c, tuple) and c[0] == 'c' else '?' for c in cs)
            if txt != nm:
                F.append(report.Finding('name:' + nm, 'to_string(scheme::%s) is "%s"' % (nm, txt), 'to_string'))
    if stat['obl'] < 20:
        raise AnalysisBroken('too few exits')
    report.finish('P14', F, {
        'obligations': stat['obl'], 'discharged': 0, 'checker_cmd': 'python3 /verif/run.py P14',
        'trusted_base': ['clang 18 front end and opt inliner', 'engine/absint.py, engine/exec.py'],
        'abstract_states': tot[0], 'transfer_steps': tot[1], 'automaton_states': au.n,
        'rule': 'product of string_to_scheme with the DFA of the six names in any case; at every exit the result is the id of the name read; to_string of each id is the name'})
