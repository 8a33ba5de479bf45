"""P02: the observers of a parsed URL return exactly the RFC 3986 components."""
import automata as A
import grammar
from absint import *
import parsing
from parsing import show
from spec import expected
import front
import report
import par

NAMES = ['encoded_url', 'encoded_origin', 'scheme', 'encoded_authority', 'encoded_userinfo', 'userinfo_part', 'encoded_user',
         'encoded_password', 'encoded_host_and_port', 'encoded_host', 'port', 'port_part', 'encoded_path', 'encoded_query',
         'query_part', 'encoded_fragment', 'fragment_part']


def check_exit(st, OUT, fail):
    R = st.regs
    au, ui, ht = R['au'][2], R['ui'][2], R['ht'][2]

    def m(off, w):
        e = st.mem.get((OUT, off))
        return e[1] if e and e[0] == w else None
    n = 0
    work = [st]
    # settle emptiness of the parts with an optional delimiter
    for k in ('sc', 'po', 'qu', 'fr', 'us', 'pw', 'ho', 'pa'):
        nx = []
        for s in work:
            nx += [x for x, z in split_zero(s, aslin(s.regs[k]))]
        work = nx
    for s in work:
        g = {k: aslin(s.regs[k]) for k in grammar.LENS}
        E = expected(g, au, ui)

        def m(off, w):
            e = s.mem.get((OUT, off))
            return e[1] if e and e[0] == w else ('t', 0)
        for i, nm in enumerate(NAMES):
            off, ln, d = E[nm]
            if d and not (ln == L0):
                if d == 'head':
                    off = ladd(off, L1)
                ln = lsub(ln, L1)
            p, v = m(16 * i, 8), m(16 * i + 8, 8)
            n += 1
            vl = aslin(v)
            if vl is None or vl != ln:
                fail(s, nm, 'length is %s, the component has %s' % (lstr(vl) if vl else v, lstr(ln)))
            elif ln != L0 and (p[0] != 'p' or p[1] != 'S' or p[2] != off):
                fail(s, nm, 'starts at %s, the component starts at %s' % (lstr(p[2]) if p[0] == 'p' else p, lstr(off)))
        for j, (nm, reg) in enumerate((('segments().size', 'ns'), ('params().size', 'np'))):
            v = m(16 * 17 + 8 * j, 8)
            n += 1
            if aslin(v) is None or aslin(v) != g[reg]:
                fail(s, nm, 'is %s, the URL has %s' % (lstr(aslin(v)) if aslin(v) else v, lstr(g[reg])))
        b = 16 * 17 + 16
        for j, (nm, x) in enumerate((('host_type', ht), ('has_authority', au), ('has_userinfo', int(ui > 0)))):
            v = m(b + 4 * j, 4)
            n += 1
            if v != C(32, x):
                fail(s, nm, 'is %s, expected %d' % (v[2] if v[0] == 'c' else v, x))
    return n


def analyse(sl, u, pat=None):
    au = grammar.url_net(sl)
    F = {}
    stat = {'exits': 0, 'obl': 0}

    def on_exit(I, st, kind, v, ins):
        stat['exits'] += 1
        if kind != 'ret':
            return          # P01

        def fail(s, nm, what):
            f = F.get(nm)
            if f is None or f.data['imprecise'] and not st.imprecise:
                F[nm] = f = report.Finding('%s' % nm, '%s() %s on e.g. "%s"' % (nm, what, show(sample_tape(s, 'S'))), 'url_view::' + nm, {'imprecise': st.imprecise, 'samples': []})
            if pat is None and len(f.data['samples']) < (200 if st.imprecise else 60):
                f.data['samples'] += [w for w in samples(s, 'S') if w not in f.data['samples']]
        stat['obl'] += check_exit(st, 'OUT', fail)
    I = parsing.run_view(u, 'h_obs', au, au.final, grammar.regs0(), on_exit, delay=1, nofold=['@h_obs'], peek=2, pat=pat)
    if pat is not None:
        return list(F.values()) + report.faults(I)[0]
    if not stat['obl']:
        raise AnalysisBroken('no accepting exit')
    fs = report.refine(list(F.values()) + report.faults(I)[0], lambda w: analyse(sl, u, dict(w)['S'] if isinstance(w, tuple) else w), secs=60)
    return stat, fs, (I.nstates, I.steps, I.njoins, len(I.visited_blocks), au.n)


def main():
    u = front.compile_ir('parse.cpp', ['h_obs'])
    par.LOCAL = u
    res, fs, und = par.pmap_fb(lambda sl: analyse(sl, par.LOCAL), lambda sl: report.fallback(A.cover(grammar.url_net(sl)), lambda w: analyse(sl, par.LOCAL, w)), grammar.SLICES)
    obl, exits, tot = 0, 0, [0] * 5
    for stat, f, t in res:
        obl += stat['obl']
        exits += stat['exits']
        tot = [a + b for a, b in zip(tot, t)]
        fs += f
    F = report.unique(fs)
    report.finish('P02', F, {
        'obligations': obl, 'discharged': obl - len(F),
        'checker_cmd': 'python3 /verif/run.py P02',
        'trusted_base': ['clang 18 front end and opt inliner', 'engine/absint.py, engine/exec.py', 'model/boost/system'],
        'exits': exits, 'slices': len(grammar.SLICES),
        'abstract_states': tot[0], 'transfer_steps': tot[1], 'joins': tot[2], 'blocks': tot[3],
        'automaton_states': tot[4], 'rule': 'product of constructor + observers with the annotated RFC 3986 automaton (one run per slice of the language); at every exit each observer must equal the affine expression over the run\'s registers',
    }, undecided=und)
