"""Verdicts, evidence files and the known-findings list."""
import itertools
import json
import os
import sys
import time

from absint import AnalysisBroken
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()


class Finding:
    """one alarm: key identifies the construct and input shape; text is what the user reads"""

    def __init__(self, key, text, where='', data=None):
        self.key = key
        self.text = text
        self.where = where
        self.data = data or {}


FAULTS = ('oob-read', 'oob-write', 'uninit-read', 'uninit-branch', 'null-copy', 'null-deref', 'dangling-read', 'dangling-write',
          'unreachable', 'div0', 'assert', 'terminate', 'abort', 'global-write', 'leak', 'bad-free')


def faults(I, kinds=FAULTS, ctx=''):
    """memory and assertion faults an analysis met -> ([Finding], [note])"""
    F, N = [], []
    for e in I.events.values():
        loc = e.where[0] if e.where else ('?', 0, '?')
        w = '; '.join('%s="%s"' % (k, ''.join(chr(c) if 32 <= c < 127 else '\\x%02x' % c for c in v)) for k, v in e.samples.items())
        path = ' <- '.join('%s (%s:%d)' % (x[2], os.path.basename(x[0]), x[1]) for x in e.where[:6])
        text = '%s%s: %s, e.g. with %s' % (ctx, e.kind, e.msg, w)
        if e.kind in kinds and not e.kind.startswith('unknown'):
            F.append(Finding(('%s:%s:%s' % (ctx, e.kind, loc[2])).replace(' ', '_'), text, path, {'imprecise': e.imprecise, 'samples': e.words}))
        else:
            N.append(text + ' at ' + path)
    return F, N


def known():
    """known findings: lines  `finding: property=<id> key=<key> :: <what fails>`"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('finding: '):
                h, _, what = ln[len('finding: '):].partition(' :: ')
                d = dict(x.split('=', 1) for x in h.split() if '=' in x)
                out[(d['property'], d['key'])] = what.strip()
    return out


def unique(fs):
    """one finding per key, the precise ones first"""
    d = {}
    for f in fs:
        if f.key not in d or d[f.key].data.get('imprecise') and not f.data.get('imprecise'):
            d[f.key] = f
    return list(d.values())


def mutants(ws):
    """words near the samples: one byte replaced or inserted"""
    for w in ws[:3]:
        parts = list(w) if isinstance(w, tuple) else [('S', w)]
        for k in range(len(parts) - 1, -1, -1):
            t, x = parts[k]
            for ins in (0, 1):
                for i in range(len(x) + ins):
                    for c in b'?#/:@&=%.[]-a0 ':
                        y = x[:i] + bytes([c]) + x[i + 1 - ins:]
                        yield tuple(parts[:k] + [(t, y)] + parts[k + 1:]) if isinstance(w, tuple) else y


def refine(F, confirm, limit=2000, each=200, secs=120):
    """findings of the joining analysis: look again at the words that resemble the samples, without joins.
    confirm(word) -> [Finding]; what it finds without loss of precision replaces the finding.  A finding that no
    bounded word confirms is not reported as a violation (it may come from a join)"""
    out, seen, done = [], set(), {}
    end = time.time() + secs
    for f in F:
        hit, broken = None, False
        ws = list(f.data.get('samples', ())[:each])
        for w in itertools.chain(ws, mutants(ws) if not f.data.get('imprecise') else ()):
            if w not in done:
                if len(done) >= limit or time.time() > end:
                    break
                try:
                    done[w] = [g for g in confirm(w) if not g.data.get('imprecise')]
                except AnalysisBroken:
                    done[w] = None
            if done[w] is None:
                broken = True
            elif done[w]:
                hit = done[w]
                break
        if hit is None:
            if not broken and not f.data.get('imprecise'):
                f.data['imprecise'] = 'no bounded word confirms it'
            out.append(f)
            continue
        for g in hit:
            if g.key not in seen:
                seen.add(g.key)
                out.append(g)
    return out


def fallback(words, confirm, secs=90):
    """the analysis gave no answer: what do bounded slices of the input show?"""
    end = time.time() + secs
    out = {}
    for w in words:
        if time.time() > end:
            break
        try:
            for g in confirm(w):
                if not g.data.get('imprecise'):
                    out.setdefault(g.key, g)
        except Exception:
            pass
        if len(out) > 3:
            break
    return list(out.values())


def finish(pid, findings, coverage, level='proof', assumptions=(), unknown=(), undecided=()):
    """write evidence, print the verdict and exit.  undecided: parts the analysis gave no answer for (never an alarm)"""
    undecided = list(undecided)
    sure = []
    for f in findings:
        if f.data.get('imprecise'):
            undecided.append('possible: %s at %s (analysis lost precision: %s)' % (f.text, f.where, f.data['imprecise']))
        else:
            sure.append(f)
    findings = sure
    coverage = dict(coverage)
    if 'discharged' in coverage:
        coverage['discharged'] = max(0, coverage['obligations'] - len(findings) - len(undecided))
    coverage['undecided'] = undecided[:40]
    kn = known()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    new = []
    seen_known = []
    for f in findings:
        k = (pid, f.key)
        if k in kn:
            if k not in seen_known:
                seen_known.append(k)
                print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
        else:
            new.append(f)
    ev = {
        'property': pid,
        'tier': os.environ.get('VERIF_TIER', 'quick'),
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level,
        'coverage': coverage,
        'wall_s': round(time.time() - T0, 2),
    }
    if assumptions:
        ev['assumptions'] = list(assumptions)
    replay = os.path.join('evidence', pid + '.replay.txt')
    if new:
        ev['violations'] = len(new)
        with open(os.path.join(VERIF, replay), 'w') as o:
            o.write('property %s: %d violation(s)\n' % (pid, len(new)))
            for f in new:
                o.write('\n[%s]\n%s\nat %s\n' % (f.key, f.text, f.where))
                for k, v in f.data.items():
                    if k == 'samples':
                        continue
                    o.write('  %s: %s\n' % (k, v))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as o:
        json.dump(ev, o, indent=1, default=str)
        o.write('\n')
    if new:
        for f in new[:20]:
            print('  %s  [%s]' % (f.text, f.where))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        sys.exit(1)
    for u in unknown:
        print('  note: %s' % u)
    for u in undecided[:20]:
        print('  UNDECIDED: %s' % u)
    print('OK property=%s (%s)' % (pid, ', '.join('%s=%s' % (k, v) for k, v in coverage.items() if isinstance(v, int))))
    sys.exit(0)
