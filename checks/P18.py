"""P18: a static pool hands out aligned, disjoint blocks inside its buffer, or fails."""
import re
import absint
import automata as A
import front
import lab
import models
import par
import report
from absint import *
from exec import Machine

KIND = {'c': (1, 1, 'char'), 'i': (4, 4, 'int'), 's': (2, 2, 'short'), 'd': (8, 8, 'double'), 'b': (16, 16, 'a type of alignment 16')}
ENTRIES = ['h_ccc', 'h_cic', 'h_sds', 'h_bcb', 'h_0cic', 'h_1cic', 'h_0ccc', 'h_1dbs']
WHO = 'static_pool::allocate'
TOP = 1 << 64


def run(u, entry, cap, reqs):
    """reqs, cap: affine or constant values -> [(state, records)], Machine"""
    out = []

    def rec(st, x):
        st.regs['$rec'] = ('x', st.regs['$rec'][1] + (x,))
        return [('ret', st, None)]

    def ptr(I, st, av, ins, name):
        # keep the pointer where substitutions reach it
        st.regs['$got%d' % av[0][2]] = av[1]
        return rec(st, ('got', av[0][2]))
    def num(I, st, av, ins, name):
        return rec(st, ({99: 'throw', 98: 'none', 97: 'free'}[av[0][2]], av[1][2]))
    M = [(re.compile(p), h) for p, h in [(r'^@verif_ptr$', ptr), (r'^@verif_int$', num)]] + models.BASE
    I = Machine(u.mod, M, max_steps=20000, delay=1)
    I.split = True
    I.on_exit = lambda I, st, kind, v, ins: out.append((st, kind))
    st = State()
    st.regs['$rec'] = ('x', ())
    I.au = A.Auto([[]], 0, [0])
    args = []
    for i, x in enumerate((cap,) + tuple(reqs)):
        if x is None:
            s = st.newsym(0)
            v = ('l', (0, ((s, 1),)))
        else:
            v = C(64, x)
        st.regs['$arg%d' % i] = v
        args.append(v)
    n = aslin(args[0])
    st.tapes['P'] = (I.au, (('G', n),) if n != L0 else (), 'ptr')
    I.start('@' + entry, [('p', 'P', L0)] + args, st)
    I.run()
    return out, I


def symbolic(u, entry):
    """-> (obligations, [text of what is not shown])"""
    bad, n = [], 0
    kinds = [KIND[c] for c in entry[-3:]]
    absint.RESIDUE.clear()
    outs, I = run(u, entry, None, (None,) * 3)
    F, notes = report.faults(I, ctx='')
    bad += [f.text for f in F] + list(notes)
    for st, kind in outs:
        if kind != 'ret':
            bad.append('an exception other than from an allocation')
            continue
        if st.imprecise:
            bad.append('imprecise: %s' % (st.imprecise,))
        N = aslin(st.regs['$arg0'])
        blocks = {}
        for r in st.regs['$rec'][1]:
            if r[0] == 'free':
                blocks.pop(r[1], None)
            if r[0] != 'got':
                continue
            k = r[1]
            v = st.regs['$got%d' % k]
            size, align, name = kinds[k]
            if v[0] != 'p' or v[1] != 'P':
                bad.append('a block of %s is not in the buffer' % name)
                continue
            sz = lmul(aslin(st.regs['$arg%d' % (k + 1)]), size)
            n += 3
            if not st.entails(v[2]) or not st.entails(lsub(lsub(N, v[2]), sz)):
                bad.append('a block of %s may pass the end of the buffer' % name)
            if align > 1 and not any(x == v and int(q.split('/')[1]) % align == 0 for q, x in st.regs.items() if q.startswith('$pad/')):
                bad.append('a block of %s may be misaligned' % name)
            for o2, s2 in blocks.values():
                if not (st.entails(lsub(lsub(v[2], o2), s2)) or st.entails(lsub(lsub(o2, v[2]), sz))):
                    bad.append('blocks may overlap')
            blocks[k] = (v[2], sz)
    if not outs:
        bad.append('no outcome')
    return n, bad


def concrete(u, it):
    entry, cap, res, reqs = it
    kinds = [KIND[c] for c in entry[-3:]]
    absint.RESIDUE['P'] = res
    outs, I = run(u[entry], entry, cap, reqs)
    absint.RESIDUE.clear()
    F, notes = report.faults(I, ctx=WHO)
    und = ['%s: %s' % (it, x) for x in notes if x.startswith('unknown')]
    label = 'buffer of %d at an address congruent %d modulo 16, requests %s' % (cap, res, ', '.join('%d %s' % (q, k[2]) for q, k in zip(reqs, kinds)))
    n = 0

    def bad(key, text):
        F.append(report.Finding(key, '%s: %s' % (text, label), WHO, {'imprecise': None, 'word': label}))
    for st, kind in outs:
        if st.imprecise:
            und.append('%s: %s' % (it, st.imprecise))
            continue
        if kind != 'ret':
            bad('throw', 'an exception leaves outside an allocation')
            continue
        top, blocks = 0, {}
        for r in st.regs['$rec'][1]:
            if r[0] == 'none':
                break
            n += 1
            k = r[1]
            if r[0] == 'free':
                blocks.pop(k, None)
                continue
            size, align, name = kinds[k]
            sz = reqs[k] * size
            at = top + -(res + top) % align
            if r[0] == 'throw':
                if at + sz <= cap:
                    bad('refuses', 'refuses a block of %s that fits' % name)
                continue
            v = st.regs['$got%d' % k]
            if v[0] != 'p' or v[1] != 'P' or v[2][1]:
                und.append('%s: pointer not understood' % (it,)) if v[0] in 'tl' else bad('outside', 'hands out a block of %s that is not in the buffer' % name)
                continue
            o = v[2][0]
            if o < 0 or o + sz > cap:
                bad('outside', 'hands out a block of %s that passes the end of the buffer' % name)
            if (res + o) % align:
                bad('misaligned', 'hands out a misaligned block of %s' % name)
            if any(sz and s2 and o < o2 + s2 and o2 < o + sz for o2, s2 in blocks.values()):
                bad('overlap', 'hands out overlapping blocks')
            blocks[k] = (o, sz)
            top = max(top, o + sz)
    if not outs and not und and not F:
        und.append('%s: no outcome' % (it,))
    return F, [], n, und, I.steps


def main():
    deep = lab.thorough()
    jobs = []
    for e in ENTRIES:
        for cap in ((0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 17, 33, 40) if not deep else range(0, 50)):
            for res in (0, 1, 2, 3, 7, 8, 15) if not deep else range(16):
                for reqs in ((1, 1, 1), (0, 1, 0), (3, 2, 1), (cap, 1, 1), (max(cap - 1, 0), 1, 1), (1, 0, 3), (1, TOP // 4, 1), (1, TOP // 4 + 1, 1), (1, TOP // 8 + 1, 1), (TOP // 16 + 1, 1, 1), (TOP // 2 + 1, 1, 1),
                             (TOP - 1, 1, 1), (1, TOP - 1, 1), (1, 1, TOP - 2)):
                    jobs.append((e, cap, res, reqs))
    F, G, n, und, steps = lab.sweep('pool.cpp', ENTRIES, jobs, concrete)
    proved = 0
    for e in ENTRIES:
        try:
            m, bad = symbolic(front.compile_ir('pool.cpp', [e]), e)
        except AnalysisBroken as x:
            m, bad = 0, [str(x)]
        proved += m
        if not F:
            und += ['%s, any buffer and any requests: %s' % (e, x) for x in sorted(set(bad))]
    lab.finish('P18', F, n + proved, und, steps, len(jobs),
               'containment, alignment and disjointness of three blocks shown as affine facts for any buffer size and any requests; refusals and arithmetic overflow on bounded constants', symbolic_obligations=proved)
