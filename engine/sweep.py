"""Applies an analysis to many (operation, stored type) pairs on all cores."""
import os, sys, time, traceback
from multiprocessing import get_context
from exits import *

JOBS = int(os.environ.get('GC_JOBS', '8'))
_work = None


def _run(i):
    try:
        return i, _work[0](_work[1][i])
    except Exception:
        return i, ('crash', traceback.format_exc())


def parallel(fn, items):
    """[fn(item)] computed by forked workers (the program is shared copy-on-write)"""
    global _work
    _work = (fn, items)
    if JOBS <= 1 or len(items) < 2:
        return [_run(i)[1] for i in range(len(items))]
    out = [None] * len(items)
    with get_context('fork').Pool(min(JOBS, len(items))) as p:
        for i, r in p.imap_unordered(_run, range(len(items)), chunksize=1):
            out[i] = r
    return out


class Result:
    """what one worker found: events and counts"""
    __slots__ = ('events', 'counts', 'fail', 'outs', 'name', 'dt', 'extra')


def job(prog, cls, cases, visit, init=None):
    """analyse cases [(fn, tag, setup, label)] with one engine; visit(engine, fn, tag, outs, this, objs) examines the exits"""
    D = cls(prog)
    if init:
        init(D)
    fails, n = {}, 0
    t0 = time.time()
    gave_up = set()
    for fn, tag, setup, label in cases:
        if fn.usr in gave_up:
            continue
        D.cur = fn
        D.ctx = (D.tagname.get(tag, '') if tag is not None else '') + (label or '')
        try:
            outs, this, objs = D.run(fn, tag, setup)
            D.this_oid = this
            n += len(outs)
            visit(D, fn, tag, outs, this, objs)
        except Unsupported as e:
            if D.unfold:
                continue
            fails['%s: %s' % (fn.q.replace(NS, ''), e)] = fails.get('%s: %s' % (fn.q.replace(NS, ''), e), 0) + 1
            if 'too many' in str(e) or 'budget' in str(e):
                gave_up.add(fn.usr)
        except RecursionError:
            fails['%s: recursion' % fn.q] = 1
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError) as e:
            if os.environ.get('GC_DEBUG'):
                traceback.print_exc()
            if D.unfold:
                continue
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            k = '%s: internal %s %s:%d' % (fn.q.replace(NS, ''), type(e).__name__, os.path.basename(tb.filename), tb.lineno)
            fails[k] = fails.get(k, 0) + 1
        finally:
            D.collectors = []
            D.quiet = 0
            D.nothrow = 0
            D.peeled = 0
    r = Result()
    r.events = list(D.events.values())
    r.counts = D.counts
    r.fail = fails
    r.outs = n
    r.name = cases[0][0].sig() if cases else ''
    r.dt = time.time() - t0
    r.extra = getattr(D, 'extra', None)
    return r
