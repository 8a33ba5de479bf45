"""Models of the calls the engine does not descend into."""
import re
from absint import *
from absint import _cmp

BASES = {}


def derives(ty, caught):
    """does an exception of (mangled typeinfo) ty match a handler for caught"""
    if ty == caught:
        return True
    seen = set()
    work = [ty]
    while work:
        t = work.pop()
        if t == caught:
            return True
        if t in seen:
            continue
        seen.add(t)
        work += BASES.get(t, ())
    return False


BASES.update({
    '@_ZTISt12length_error': ('@_ZTISt11logic_error',),
    '@_ZTISt12out_of_range': ('@_ZTISt11logic_error',),
    '@_ZTISt16invalid_argument': ('@_ZTISt11logic_error',),
    '@_ZTISt11logic_error': ('@_ZTISt9exception',),
    '@_ZTISt13runtime_error': ('@_ZTISt9exception',),
    '@_ZTISt9bad_alloc': ('@_ZTISt9exception',),
    '@_ZTIN5boost6system12system_errorE': ('@_ZTISt13runtime_error',),
})


def R(st, v=None):
    return [('ret', st, v)]


def m_nop(I, st, av, ins, name):
    return R(st, None)


def m_lifetime_start(I, st, av, ins, name):
    p = av[1]
    if p[0] == 'p' and not p[2][1]:
        for k in [k for k in st.mem if k[0] == p[1]]:
            del st.mem[k]
        if p[1] in st.dead:
            st.dead = st.dead - {p[1]}
    return R(st)


def m_lifetime_end(I, st, av, ins, name):
    p = av[1]
    if p[0] == 'p' and p[1].startswith('A'):
        for k in [k for k in st.mem if k[0] == p[1]]:
            del st.mem[k]
        st.dead = st.dead | {p[1]}
    return R(st)


def m_expect(I, st, av, ins, name):
    return R(st, av[0])


def m_assume(I, st, av, ins, name):
    return [('ret', s, None) for s, t in I.truth(st, av[0]) if t]


def m_minmax(I, st, av, ins, name):
    m = re.match(r'@llvm\.([us])(min|max)\.i(\d+)', name)
    sg, mm, w = m.group(1), m.group(2), int(m.group(3))
    pred = sg + ('lt' if mm == 'min' else 'gt')
    st.regs['$a'], st.regs['$b'] = av
    out = []
    for s, c in I.icmp(st, pred, w, av[0], av[1], ins):
        for t, x in I.truth(s, c):
            a, b = t.regs.pop('$a'), t.regs.pop('$b')
            out.append(('ret', t, a if x else b))
    return out


def m_abs(I, st, av, ins, name):
    if av[0][0] == 'c':
        w = av[0][1]
        return R(st, C(w, abs(sgn(av[0][2], w))))
    return R(st, ('t', int(name.rsplit('.i', 1)[1])))


def m_strlen(I, st, av, ins, name):
    p = av[0]
    if p[0] == 'p' and p[1].startswith('@') and not p[2][1]:
        n = 0
        while True:
            v = I.gload(st, p[1], p[2][0] + n, 1)
            if v is None or v == 'oob':
                raise AnalysisBroken('strlen of a non-constant')
            if v[2] == 0:
                return R(st, C(64, n))
            n += 1
    raise AnalysisBroken('strlen of a non-literal')


def m_memcmp(I, st, av, ins, name):
    a, b, n = av
    l = aslin(n)
    if l is None or l[1]:
        raise AnalysisBroken('memcmp of symbolic size')
    out = []
    st.regs['$ma'], st.regs['$mb'] = a, b
    work = [st]
    for k in range(l[0]):
        nxt = []
        for s in work:
            pa = s.regs['$ma']
            for t, x in I.load(s, ('p', pa[1], ladd(pa[2], lconst(k))), ('i', 8), ins):
                t.regs['$mx'] = x
                pb = t.regs['$mb']
                for u, y in I.load(t, ('p', pb[1], ladd(pb[2], lconst(k))), ('i', 8), ins):
                    x2 = u.regs.pop('$mx')
                    for w, c in I.icmp(u, 'eq', 8, x2, y, ins):
                        for z, eq in I.truth(w, c):
                            if eq:
                                nxt.append(z)
                            else:
                                z.regs.pop('$ma')
                                z.regs.pop('$mb')
                                # only the sign is specified: not zero
                                out.append(('ret', z, C(32, 1)))
        work = nxt
    for s in work:
        s.regs.pop('$ma')
        s.regs.pop('$mb')
        out.append(('ret', s, C(32, 0)))
    return out


def m_memcpy(I, st, av, ins, name):
    return [('ret', s, None) for s in I.memcpy(st, av[0], av[1], av[2], ins, 'move' in name)]


def m_memset(I, st, av, ins, name):
    p, v, n = av[0], av[1], aslin(av[2])
    if p[0] == 'p' and n != L0:
        I.shared(st, p[1], ins)
    if n is None or p[0] != 'p':
        raise AnalysisBroken('memset')
    if p[1] in st.tapes:
        if not n[1]:
            work = [st]
            for k in range(n[0]):
                work = [u for t in work for u in I.write8(t, p[1], ladd(p[2], lconst(k)), v, ins)]
            return [('ret', s, None) for s in work]
        raise AnalysisBroken('symbolic memset')
    if n[1] or p[2][1]:
        raise AnalysisBroken('symbolic memset')
    if not I.inbounds(st, p[1], p[2][0], n[0], ins, 'oob-write'):
        return []
    I.kill(st, p[1], p[2][0], n[0])
    o, e = p[2][0], p[2][0] + n[0]
    if v[0] == 'c':
        while o < e:
            w = 8 if o % 8 == 0 and o + 8 <= e else 4 if o % 4 == 0 and o + 4 <= e else 1
            st.mem[(p[1], o)] = (w, C(8 * w, int.from_bytes(bytes([v[2]]) * w, 'little')))
            o += w
    return R(st)


def m_assert(I, st, av, ins, name):
    msg = '?'
    if av[0][0] == 'p':
        g = I.gbytes(av[0][1])
        if g:
            msg = bytes(x or 0 for x in g[0]).split(b'\0')[0].decode('latin1')
    I.event('assert', 'assertion can fail: ' + msg, st, ins)
    return []


def m_terminate(I, st, av, ins, name):
    I.event('terminate', 'std::terminate reached', st, ins)
    return []


def m_abort(I, st, av, ins, name):
    I.event('abort', 'abort reached', st, ins)
    return []


def m_cxa_throw(I, st, av, ins, name):
    t = av[1][1] if av[1][0] == 'p' else '?'
    return [('throw', st, t)]


def m_std_throw(I, st, av, ins, name):
    t = 'St9bad_alloc' if 'bad_alloc' in name else 'St20bad_array_new_length' if 'bad_array' in name else \
        'St12length_error' if 'length_error' in name else 'St12out_of_range' if 'out_of_range' in name else 'St11logic_error'
    return [('throw', st, '@_ZTI' + t)]


def m_throw_exception(I, st, av, ins, name):
    m = re.search(r'throw_exceptionI(.*?)EEvRKT_', name)
    t = m.group(1) if m else '?'
    return [('throw', st, '@_ZTI' + t)]


def m_alloc_exception(I, st, av, ins, name):
    return R(st, ('p', '$exobj', L0))


def m_begin_catch(I, st, av, ins, name):
    return R(st, ('p', '$exobj', L0))


def m_typeid(I, st, av, ins, name):
    t = av[0][1] if av[0][0] == 'p' else None
    return R(st, C(32, I.typeid(t)))


def m_rethrow(I, st, av, ins, name):
    return [('throw', st, st.regs.get('$exc', ('x', '?'))[1])]


def m_tolower(I, st, av, ins, name):
    I.event('locale', 'calls tolower, whose result depends on the locale', st, ins)
    v = av[0]
    if v[0] == 'c':
        x = v[2]
        return R(st, C(32, x + 32 if 65 <= x <= 90 else x))
    if v[0] == 'f':
        return R(st, map_fn(st, v, 32, lambda x: x + 32 if 65 <= x <= 90 else x, 'tolower'))
    return R(st, ('t', 32))


BASE = [(re.compile(p), h) for p, h in [
    (r'^@llvm\.lifetime\.start', m_lifetime_start),
    (r'^@llvm\.lifetime\.end', m_lifetime_end),
    (r'^@llvm\.expect', m_expect),
    (r'^@llvm\.assume', m_assume),
    (r'^@llvm\.[us](min|max)\.i', m_minmax),
    (r'^@llvm\.abs\.i', m_abs),
    (r'^@llvm\.(memcpy|memmove)', m_memcpy),
    (r'^@llvm\.memset', m_memset),
    (r'^@llvm\.trap$', m_abort),
    (r'^@llvm\.eh\.typeid\.for', m_typeid),
    (r'^@strlen$', m_strlen),
    (r'^@(memcmp|bcmp)$', m_memcmp),
    (r'^@__assert_fail$', m_assert),
    (r'^@__clang_call_terminate$|^@_ZSt9terminatev$', m_terminate),
    (r'^@abort$', m_abort),
    (r'^@__cxa_throw$', m_cxa_throw),
    (r'^@__cxa_rethrow$', m_rethrow),
    (r'^@__cxa_allocate_exception$', m_alloc_exception),
    (r'^@__cxa_begin_catch$', m_begin_catch),
    (r'^@__cxa_(end_catch|free_exception|guard_release|guard_abort)$', m_nop),
    (r'15throw_exceptionI', m_throw_exception),
    (r'^@_ZSt[0-9]+__throw_', m_std_throw),
    (r'^@_ZNSt(11logic_error|9bad_alloc|16invalid_argument|12length_error|12out_of_range|13runtime_error)[CD][0-9]', m_nop),
    (r'^@_ZNSt9exceptionD[0-9]', m_nop),
    (r'^@tolower$', m_tolower),
]]
