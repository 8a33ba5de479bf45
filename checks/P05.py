"""P05: parsing any string, and observing any parsed URL, stays inside the string and never fails an assertion."""
import automata as A
from absint import *
import parsing
import grammar
import front
import report
import par


def analyse(sl, us, pat=None):
    if sl == 'any':
        au, _ = A.dfa_multi([A.URIREF])
        I = parsing.run_view(us['h_view'], 'h_view', au, au.all, {}, lambda *a: None, pat=pat)
    else:
        au = grammar.url_net(sl)
        I = parsing.run_view(us['h_obs'], 'h_obs', au, au.final, grammar.regs0(), lambda *a: None, delay=1, nofold=['@h_obs'], peek=2, pat=pat)
    F, N = report.faults(I)
    if pat is not None:
        return F
    F = report.refine(F, lambda w: analyse(sl, us, dict(w)['S']), secs=60)
    return F, N, (I.nstates, I.steps, I.loads, len(I.visited_blocks))


def main():
    us = {e: front.compile_ir('parse.cpp', [e]) for e in ('h_view', 'h_obs')}
    par.LOCAL = us
    def fb(sl):
        au = A.dfa_multi([A.URIREF])[0] if sl == 'any' else grammar.url_net(sl)
        return report.fallback(A.cover(au), lambda w: analyse(sl, par.LOCAL, w))
    res, fs, und = par.pmap_fb(lambda sl: analyse(sl, par.LOCAL), fb, ['any'] + grammar.SLICES, lambda r: r[1])
    N, tot = [], [0] * 4
    for f, ns, t in res:
        tot = [a + b for a, b in zip(tot, t)]
        fs += f
        N += [n for n in ns if n not in N]
    F = report.unique(fs)
    report.finish('P05', F, {
        'obligations': tot[2], 'discharged': tot[2] - len(F),
        'checker_cmd': 'python3 /verif/run.py P05',
        'trusted_base': ['clang 18 front end and opt inliner', 'engine/absint.py, engine/exec.py', 'model/boost/system'],
        'abstract_states': tot[0], 'transfer_steps': tot[1], 'blocks': tot[3],
        'rule': 'no reachable abstract state reads or writes outside the objects and the input, reads indeterminate bytes, fails an assertion or reaches terminate',
    }, undecided=und + N)
