"""P01: url_view(s) is constructed iff s is an RFC 3986 URI-reference."""
import automata as A
from absint import *
import parsing
from parsing import show
import front
import report


def analyse(u, au, pat=None):
    acc = au.final
    rej = au.all - acc
    F = {}
    stat = {'exits': 0, 'accept': 0, 'reject': 0}

    def on_exit(I, st, kind, v, ins):
        stat['exits'] += 1
        E, _ = parsing.end_states(st, 'S')
        ok = kind == 'ret'
        stat['accept' if ok else 'reject'] += 1
        for q in sorted(E & (rej if ok else acc)):
            w = parsing.sample_with_end(st, 'S', frozenset([q]))
            key = '%s:%d' % ('accepts' if ok else 'rejects', q)
            f = F.get(key)
            if f is None or f.data['imprecise'] and not st.imprecise:
                F[key] = f = report.Finding(key, 'the parser %s, e.g. "%s"' % ('accepts a string outside the grammar' if ok else 'rejects a valid URI-reference', show(w)),
                                            'url_view::url_view', {'imprecise': st.imprecise, 'samples': []})
            if pat is None and len(f.data['samples']) < (200 if st.imprecise else 60):
                for w in samples(parsing.restrict_end(st, 'S', frozenset([q])), 'S'):
                    if w not in f.data['samples']:
                        f.data['samples'].append(w)
    I = parsing.run_view(u, 'h_view', au, au.all, {}, on_exit, pat=pat)
    # a fault ends the path: the string is neither accepted nor rejected
    return I, stat, list(F.values()) + report.faults(I)[0]


def main():
    u = front.compile_ir('parse.cpp', ['h_view'])
    au, _ = A.dfa_multi([A.URIREF])
    try:
        I, stat, F = analyse(u, au)
    except AnalysisBroken as e:
        # no answer: look at bounded slices
        F = report.fallback(A.cover(au), lambda w: analyse(u, au, w)[2], secs=400)
        report.finish('P01', F, {'obligations': 0, 'discharged': 0, 'checker_cmd': 'python3 /verif/run.py P01', 'trusted_base': [], 'rule': 'bounded slices only'}, undecided=[str(e)])
        return
    if not stat['accept'] or not stat['reject']:
        raise AnalysisBroken('parser has no accepting or no rejecting exit')
    F = report.refine(F, lambda w: analyse(u, au, dict(w)['S'] if isinstance(w, tuple) else w)[2])
    report.finish('P01', F, {
        'obligations': stat['exits'], 'discharged': stat['exits'] - len(F),
        'checker_cmd': 'python3 /verif/run.py P01',
        'trusted_base': ['clang 18 front end and opt inliner', 'engine/absint.py, engine/exec.py', 'model/boost/system'],
        'abstract_states': I.nstates, 'transfer_steps': I.steps, 'joins': I.njoins, 'blocks': len(I.visited_blocks),
        'automaton_states': au.n, 'rule': 'product of the parser with the minimal DFA of RFC 3986 URI-reference; every exit must agree with the automaton',
    })
