"""Run harness jobs in worker processes; process death and hangs become results, not harness failures."""
import os, signal, sys, traceback
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
import boot


class WallHang(BaseException):
    """Raised inside a worker when one job takes far too long in real time."""


class Died:
    """Result of a job whose worker process was killed (crash in native code, out of memory)."""
    def __init__(self, item):
        self.item = item


class Failed:
    """Result of a job that raised."""
    def __init__(self, item, exc):
        import report
        self.item, self.text = item, report.describe(exc)
        self.code = report.from_code_under_test(exc)
        self.hang = isinstance(exc, WallHang)
        self.tb = ''.join(traceback.format_exception(exc))[-6000:]


def _call(fn, item, wall):
    def alarm(*a):
        raise WallHang('no result within %d s of real time' % wall)
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        return fn(item)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as exc:
        return Failed(item, exc)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _chunk(fn, items, wall):
    return [_call(fn, x, wall) for x in items]


def pmap(fn, items, jobs=8, wall=120, chunk=None):
    """Ordered results of fn(item); Failed/Died objects stand for jobs that did not return."""
    items = list(items)
    out = [None] * len(items)
    chunk = chunk or max(1, min(50, len(items) // (jobs * 6) or 1))
    groups = [list(range(k, min(k + chunk, len(items)))) for k in range(0, len(items), chunk)]
    ctx = mp.get_context('fork')
    while groups:
        retry = []
        with ProcessPoolExecutor(jobs, mp_context=ctx) as ex:
            fut = {ex.submit(_chunk, fn, [items[i] for i in g], wall): g for g in groups}
            for f in as_completed(fut):
                g = fut[f]
                try:
                    for i, r in zip(g, f.result()):
                        out[i] = r
                except BrokenProcessPool:
                    retry.append(g)
        groups = []
        if retry:
            # find the culprit(s): run the affected items one by one in fresh processes
            for g in retry[:3 * jobs]:
                for i in g:
                    with ProcessPoolExecutor(1, mp_context=ctx) as ex:
                        try:
                            out[i] = ex.submit(_call, fn, items[i], wall).result()
                        except BrokenProcessPool:
                            out[i] = Died(items[i])
                            return [Died(items[k]) if k == i else r for k, r in enumerate(out)]
    return out
