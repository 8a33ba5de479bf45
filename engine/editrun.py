"""Checks over modifications: one analysis per (group of operations, slice of the URLs), shared by several properties."""
import os
import automata as A
import editing
import effects
import front
import grammar
import par
import report
from absint import *

TRUST = ['clang 18 front end and opt inliner', 'engine/absint.py, engine/exec.py, engine/linear.py', 'model/boost/system',
         'models of operator new/delete, memcpy/memmove and the C++ exception runtime (engine/models.py)']
GROUPS = [(9,), (5,), (4,), (12, 13, 14), (2, 6, 7, 8), (10, 11, 15, 16)]
NAMES = {k: v[0] for k, v in editing.OPS.items()}
# of the 26 slices, those that differ in more than the kind of a non-empty host
CORE = [(sc, au) for sc in (0, 1) for au in ['none'] + [(ui, k) for ui in (0, 1, 2) for k in ('empty', 'name')]] + [(0, (0, 'ipv4')), (1, (0, 'ipv6'))]


def weight(job):
    ops, sl, small = job[:3]
    w = {9: 3 if small else 30, 5: 6, 4: 4, 12: 1, 13: 3, 14: 3}
    n = sum(w.get(o, 1) for o in ops)
    return n * (1 if sl[1] == 'none' else 2 + sl[1][0])


def one(job, u, kinds, pat=None):
    ops, sl, small, entry = job
    F, stat = {}, {'obl': 0, 'exits': 0}

    def on_check(I, st, OUT):
        stat['exits'] += 1
        op = st.regs['$op'][2]

        def fail(k, nm, what, s):
            if k not in kinds:
                return
            key = '%s:%s:%s' % (NAMES[op], k, nm)
            f = F.get(key)
            if f is None or f.data['imprecise'] and not s.imprecise:
                F[key] = f = report.Finding(key, '%s("%s") on "%s": %s' % (NAMES[op], show(s, 'S'), show(s, 'P'), what), 'url::' + NAMES[op],
                                            {'imprecise': s.imprecise, 'samples': [], 'op': op})
            if pat is None and len(f.data['samples']) < (200 if s.imprecise else 60):
                f.data['samples'] += [w for w in witnesses(s) if w not in f.data['samples']]
        stat['obl'] += effects.check(I, st, op, OUT, fail, kinds)
    if pat is not None:
        I = editing.setup(u[entry], sl, list(ops), on_check, small=small, entry=entry, pat=pat, max_steps=200000)
        I.run()
        return list(F.values()) + report.faults(I)[0]
    I = editing.setup(u[entry], sl, list(ops), on_check, small=small, entry=entry)
    try:
        I.run()
        why = None if stat['exits'] else 'no modification returned'
    except AnalysisBroken as e:
        why = str(e)
    G, N = report.faults(I)
    if why:
        raise AnalysisBroken(why)
    n = len(F)
    L = list(F.values()) + G
    L = report.refine(L, lambda w: one(job, u, kinds, w), secs=40)
    F = [f for f in L if f.key.count(':') == 2 and f.key.split(':')[0] in NAMES.values()]
    G = [f for f in L if f not in F]
    return F, G, N, (stat['obl'], stat['exits'], I.nstates, I.steps, I.njoins, I.loads)


def bounded(job, u, kinds):
    """no answer for all URLs of the slice: look at bounded words"""
    ops, sl, small, entry = job
    H = []
    for op in ops:
        H += report.fallback(fallback_words(sl, op), lambda w: one(((op,), sl, small, entry), u, kinds, w), secs=60 // len(ops))
    return H


def fallback_words(sl, op):
    """URLs of the slice that together use every transition of the grammar, with arguments likewise"""
    full = grammar.url_net(sl)
    P = A.cover(full)
    LT = editing.langs(False)
    ln = editing.OPS[op][1]
    if callable(ln):
        ln = 'path_abempty' if sl[1] != 'none' else 'path_noauth_scheme' if sl[0] else 'path_noauth_noscheme'
    S = A.cover(LT[ln].auto)
    out = []
    for k in range(max(len(P), len(S))):
        out.append((('P', P[k % len(P)]), ('S', S[(k * 7) % len(S)])))
        out.append((('P', P[(k * 5) % len(P)]), ('S', S[k % len(S)])))
    return out


def show(st, t):
    return ''.join(chr(c) if 32 <= c < 127 else '\\x%02x' % c for c in sample_tape(st, t))


def merge(res):
    res, more, und = res
    F, G, seen, tot = [], [], set(), [0] * 6
    imp = {}
    for f, g, n, t in res:
        tot = [a + b for a, b in zip(tot, t)]
        for x, L in [(x, F) for x in f] + [(x, G) for x in g]:
            if x.data.get('imprecise'):
                imp.setdefault(x.key, (x, L))
            elif x.key not in seen:
                seen.add(x.key)
                L.append(x)
        und += [x for x in n if x not in und]
    for x in more:
        if x.key not in seen:
            seen.add(x.key)
            F.append(x)
    for k, (x, L) in imp.items():
        if k not in seen:
            L.append(x)
    return F, G, und, tot


def run(pid, kinds, plan, rule, faults=False):
    u = {e: front.compile_ir('edit.cpp', [e]) for e in sorted({j[3] for j in plan})}
    par.LOCAL = u
    plan = sorted(plan, key=weight, reverse=True)
    F, G, und, tot = merge(par.pmap_fb(lambda j: one(j, par.LOCAL, kinds), lambda j: bounded(j, par.LOCAL, kinds), plan, lambda r: r[2]))
    # a fault ends the path, so nothing is known about the call's effect there
    F = F + G
    report.finish(pid, F, {
        'obligations': tot[0] + (tot[5] if faults else 0), 'discharged': 0,
        'checker_cmd': 'python3 /verif/run.py %s %s' % (pid, os.environ.get('VERIF_TIER', 'quick')), 'trusted_base': TRUST,
        'operations': sorted({NAMES[o] for j in plan for o in j[0]}), 'jobs': len(plan), 'slices': len({j[1] for j in plan}),
        'exits': tot[1], 'abstract_states': tot[2], 'transfer_steps': tot[3], 'joins': tot[4], 'memory_reads': tot[5],
        'restricted_host_arguments': any(j[2] for j in plan if 9 in j[0]), 'rule': rule}, undecided=und)


def thorough():
    return os.environ.get('VERIF_TIER') == 'thorough'


SLACK = [(0, 'none'), (1, (0, 'name')), (0, (1, 'empty')), (1, (2, 'name'))]


def plan(slices, groups=GROUPS, slack=SLACK):
    """quick: the given slices, IP literals in host arguments restricted; thorough: every slice, every argument.
    h_slack: the URL has spare capacity when it is modified"""
    if thorough():
        return [(g, s, False, e) for g in groups for s in grammar.SLICES for e in ('h_edit', 'h_slack')]
    return [(g, s, True, 'h_edit') for g in groups for s in slices] + [(g, s, True, 'h_slack') for g in groups for s in slack]
