"""Emptiness of a conjunction of linear inequalities over the lengths of one abstract state (Fourier-Motzkin elimination
on rationals with integer tightening).  Part of the numeric domain: decides whether an abstract state is empty."""
from math import gcd, ceil
from fractions import Fraction

LIMIT = 4000


def _norm(c, row):
    """c + sum row >= 0, integer symbols: divide by the gcd of the coefficients and round the constant down"""
    den = 1
    for v in row.values():
        if isinstance(v, Fraction):
            den = den * v.denominator // gcd(den, v.denominator)
    if isinstance(c, Fraction):
        den = den * c.denominator // gcd(den, c.denominator)
    if den != 1:
        row = {k: int(v * den) for k, v in row.items()}
        c = int(c * den)
    g = 0
    for v in row.values():
        g = gcd(g, abs(v))
    if g > 1:
        row = {k: v // g for k, v in row.items()}
        c = c // g          # floor
    return c, row


def empty(ineqs):
    """ineqs: [(const, {sym: coef})] meaning const + sum >= 0; True when provably no integer solution"""
    cur = {}
    for c, row in ineqs:
        c, row = _norm(c, dict(row))
        if not row:
            if c < 0:
                return True
            continue
        k = tuple(sorted(row.items()))
        if k not in cur or cur[k] > c:
            cur[k] = c
    while cur:
        occ = {}
        for k in cur:
            for s, v in k:
                p = occ.setdefault(s, [0, 0])
                p[0 if v > 0 else 1] += 1
        s = min(occ, key=lambda x: occ[x][0] * occ[x][1])
        pos, neg, rest = [], [], {}
        for k, c in cur.items():
            v = dict(k).get(s, 0)
            if v > 0:
                pos.append((c, dict(k), v))
            elif v < 0:
                neg.append((c, dict(k), -v))
            else:
                rest[k] = c
        for c1, r1, a in pos:
            for c2, r2, b in neg:
                row = {}
                for t, v in r1.items():
                    row[t] = v * b
                for t, v in r2.items():
                    row[t] = row.get(t, 0) + v * a
                row = {t: v for t, v in row.items() if v}
                c, row = _norm(c1 * b + c2 * a, row)
                if not row:
                    if c < 0:
                        return True
                    continue
                k = tuple(sorted(row.items()))
                if k not in rest or rest[k] > c:
                    rest[k] = c
        if len(rest) > LIMIT:
            return False
        cur = rest
    return False


def constraints(st, clen, minlen):
    out = []
    for s, m in st.sym.items():
        if m is not None:
            out.append((-m, {s: 1}))
    for f in st.facts:
        out.append((f[0], dict(f[1])))
    seen = set()
    for tn, (au, cells, mode) in st.tapes.items():
        for c in cells:
            l = clen(c)
            m = minlen(au, c)
            if l[1] and (l, m) not in seen:
                seen.add((l, m))
                out.append((l[0] - m, dict(l[1])))
            elif not l[1] and l[0] < m:
                out.append((-1, {}))
            if len(c) > 6:
                for w in c[6]:
                    if w[1]:
                        out.append((w[0], dict(w[1])))
    return out


def state_empty(st, clen, minlen):
    base = constraints(st, clen, minlen)
    ne = [f for f in st.ne if f[1]][:8]

    def go(i, cs):
        if empty(cs):
            return True
        if i == len(ne):
            return False
        f = ne[i]
        return go(i + 1, cs + [(f[0] - 1, dict(f[1]))]) and go(i + 1, cs + [(-f[0] - 1, {s: -c for s, c in f[1]})])
    return go(0, base)
