"""fork-based map over independent analyses (largest first is the caller's business)"""
import gc
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

LOCAL = None
LIMIT = 5 << 30     # address space of a worker
BUDGET = {'quick': 720, 'thorough': 20000}


def pmap(fn, items, jobs=None, budget=None):
    """-> results in order; an item whose analysis gives up or runs out of time yields a Broken"""
    from absint import AnalysisBroken
    jobs = jobs or min(8, os.cpu_count() or 1)
    end = time.time() + (budget or BUDGET.get(os.environ.get('VERIF_TIER', 'quick'), 720))
    items = list(items)
    res = [None] * len(items)
    run = {}
    nxt = 0
    bufs = {}
    while nxt < len(items) or run:
        if time.time() > end:
            for r, (pid, i) in run.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                res[i] = ('broken', 'out of time')
            for i in range(nxt, len(items)):
                res[i] = ('broken', 'out of time')
            break
        while nxt < len(items) and len(run) < jobs:
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_AS, (LIMIT, LIMIT))
                try:
                    try:
                        out = ('ok', fn(items[nxt]))
                    except AnalysisBroken as e:
                        out = ('broken', str(e))
                    except MemoryError:
                        out = None
                    except BaseException:
                        out = ('broken', traceback.format_exc()[-600:])
                    if out is None:
                        gc.collect()
                        out = ('broken', 'out of memory')
                    with os.fdopen(w, 'wb') as f:
                        f.write(pickle.dumps(out))
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = (pid, nxt)
            bufs[r] = b''
            nxt += 1
        rd, _, _ = select.select(list(run), [], [], max(0.1, end - time.time()))
        for r in rd:
            d = os.read(r, 1 << 20)
            if d:
                bufs[r] += d
            else:
                os.close(r)
                pid, i = run.pop(r)
                os.waitpid(pid, 0)
                b = bufs.pop(r)
                res[i] = pickle.loads(b) if b else ('broken', 'worker died')
    return [x[1] if x[0] == 'ok' else Broken(items[i], x[1]) for i, x in enumerate(res)]


class Broken:
    """an analysis that gave no answer"""

    def __init__(self, item, why):
        self.item, self.why = item, why

    def __str__(self):
        return '%s: %s' % (self.item, self.why)


def split(res):
    """-> (results, undecided texts)"""
    return [x for x in res if not isinstance(x, Broken)], [str(x) for x in res if isinstance(x, Broken)]


def pmap_fb(fn, fb, items, gaps=lambda x: False):
    """pmap; for the items without an answer (or whose result has gaps), fb(item) looks at bounded slices.  -> (results, [what the slices showed], undecided texts)"""
    t = os.environ.get('VERIF_TIER', 'quick')
    res = pmap(fn, items, budget=BUDGET.get(t, 720) * 3 // 4)
    lost = [x for x in res if isinstance(x, Broken)] + [Broken(i, 'gaps') for i, x in zip(items, res) if not isinstance(x, Broken) and gaps(x)]
    more = []
    if lost:
        for x in pmap(lambda b: fb(b.item), lost, budget=BUDGET.get(t, 720) // 4):
            if not isinstance(x, Broken):
                more += x
    ok, und = split(res)
    return ok, more, und
