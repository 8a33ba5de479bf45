"""Analysis of url_view's parsing constructor over every string."""
import automata as A
from absint import *
from exec import Machine
import models


def end_states(st, tn):
    """the automaton states the tape's whole content can end in"""
    au, cells, mode = st.tapes[tn]
    if hasattr(au, 'orig'):
        E, c = _end_states(st, cells, au)
        return frozenset(au.orig[q] for q in E), c
    return _end_states(st, cells, au)


def _end_states(st, cells, au):
    if not cells:
        return frozenset([au.start]), None
    c = cells[-1]
    if c[0] == 'C':
        return frozenset([c[3]]), None
    if c[0] in 'BO':
        q, R, ln, m = c[2], c[3], c[4], c[5]
        lo = st.lb(ln) or 0
        if not ln[1]:
            return frozenset(r for r in R if au.can(q, frozenset([r]), m, ln[0], exact=True)), c
        return frozenset(r for r in R if au.can(q, frozenset([r]), m, max(lo, 0))), c
    raise AnalysisBroken('tape end')


def restrict_end(st, tn, R):
    """the tape's content ends in R"""
    au, cells, mode = st.tapes[tn]
    s = st.copy()
    c = cells[-1] if cells else None
    if hasattr(au, 'orig'):
        R = [k for k, q in au.orig.items() if q in R]
    if c is not None and c[0] in 'BO':
        s.tapes[tn] = (au, cells[:-1] + ((c[0], c[1], c[2], frozenset(c[3]) & frozenset(R), c[4], c[5]),), mode)
    return s


def sample_with_end(st, tn, R):
    return sample_tape(restrict_end(st, tn, R), tn)


def run_view(unit, entry, au, R, regs, on_exit, delay=1, outsize=4096, max_steps=4000000, mode='ptr', nofold=(), marks=None, peek=1 << 30, pat=None):
    I = Machine(unit.mod, models.BASE, max_steps=max_steps, delay=delay)
    I.fold_joins = True
    I.nofold = set(nofold)
    I.marks = marks
    I.peek = peek
    st = State()
    if pat is not None:
        # only the words that look like pat
        I.split = True
        full, au = au, A.pattern(au, pat)
        R = frozenset(k for k in au.ends if au.orig[k] in R)
        au.full = full
        n = lconst(len(pat))
    else:
        n = lsym(st.newsym(0))
    st.tapes['S'] = (au, (('O', fresh(), au.start, R, n, A.ALL),) if n != L0 else (), mode)
    for k, v in regs.items():
        st.regs[k] = v
    I.sizes['OUT'] = outsize
    I.on_exit = on_exit
    I.start('@' + entry, [('p', 'S', L0), mklin(n), ('p', 'OUT', L0)], st)
    I.run()
    return I


def show(w):
    return ''.join(chr(c) if 32 <= c < 127 else '\\x%02x' % c for c in w)
