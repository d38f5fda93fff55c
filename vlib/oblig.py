"""Obligations, parallel discharge, verdicts, evidence."""
import os, sys, time, json, signal, traceback, multiprocessing as mp, resource
from core import Unsupported, MemError, Thrown, Aborted

PROVED, REFUTED, UNDECIDED = 'proved', 'refuted', 'undecided'


class Res:
    """one obligation outcome"""

    def __init__(self, name, status, info='', fn='', backend='', secs=0.0):
        self.name = name
        self.status = status
        self.info = info
        self.fn = fn
        self.backend = backend
        self.secs = secs
        self.bounded = False
        self.witness = None     # picklable counterexample, for the replay


class Task:
    """a group of obligations about one function; body() yields (name, status, info)"""

    def __init__(self, name, fn, body, backend='polynomial normal form', timeout=120, expect=1, weight=1):
        self.name = name
        self.fn = fn            # real function(s) under contract (demangled)
        self.body = body
        self.backend = backend
        self.timeout = timeout
        self.expect = expect    # minimum number of obligations (vacuity guard)
        self.weight = weight


class _Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise _Timeout()


def run_task(t):
    out = []
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(t.timeout))
    meta = {'inlined': [], 'contracts': {}}
    try:
        for r in t.body(meta):
            out.append(Res(t.name + ': ' + r[0], r[1], str(r[2])[:1500] if len(r) > 2 else '', t.fn, t.backend))
            if len(r) > 3:
                out[-1].witness = r[3]
        if len(out) < t.expect:
            out.append(Res(t.name + ': vacuity guard', UNDECIDED, 'only %d obligations generated' % len(out), t.fn, t.backend))
    except _Timeout:
        out.append(Res(t.name, UNDECIDED, 'time limit %ds' % t.timeout, t.fn, t.backend))
    except Unsupported as e:
        out.append(Res(t.name, UNDECIDED, 'outside the engine: %s' % e, t.fn, t.backend))
    except (MemError, Thrown, Aborted) as e:
        out.append(Res(t.name + ': no memory error or abort', REFUTED, '%s: %s' % (type(e).__name__, e), t.fn, t.backend))
    except Exception as e:
        out.append(Res(t.name, UNDECIDED, 'internal: ' + traceback.format_exc()[-1200:], t.fn, t.backend))
    finally:
        signal.alarm(0)
    dt = time.time() - t0
    for r in out:
        r.secs = dt / max(1, len(out))
    return out, meta


_tasks = None


def _run_i(i):
    return i, run_task(_tasks[i])


def run_tasks(tasks, jobs=8, budget=None):
    """discharge all tasks in forked workers"""
    global _tasks
    _tasks = tasks
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].weight)
    res = [None] * len(tasks)
    if jobs == 1:
        for i in order:
            res[i] = run_task(tasks[i])
        return res
    t0 = time.time()
    import gc
    gc.collect()
    gc.freeze()
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs, maxtasksperchild=8) as pool:
        its = [(i, pool.apply_async(_run_i, (i,))) for i in order]
        for i, a in its:
            try:
                left = None if budget is None else max(1, budget - (time.time() - t0))
                res[i] = a.get(left)[1]
            except mp.TimeoutError:
                t = tasks[i]
                res[i] = ([Res(t.name, UNDECIDED, 'overall time budget', t.fn, t.backend)], {})
            except Exception as e:
                t = tasks[i]
                res[i] = ([Res(t.name, UNDECIDED, 'worker: %r' % e, t.fn, t.backend)], {})
        pool.terminate()
    return res


def explore(run, limit=200):
    """run(decisions) -> (dom, outcome); depth-first over all decision lists.
    yields (dom, outcome)"""
    stack = [[]]
    n = 0
    while stack:
        dec = stack.pop()
        dead = False
        try:
            dom, outcome = run(list(dec))
        except Unsupported as e:
            if not hasattr(e, 'dom'):
                raise
            dom, dead = e.dom, True
        n += 1
        if n > limit:
            raise Unsupported('path limit')
        full = dom.decisions[:dom.pos]
        for i in range(len(dec), len(full)):
            if not full[i]:
                stack.append(full[:i] + [True])
        if not dead:
            yield dom, outcome
