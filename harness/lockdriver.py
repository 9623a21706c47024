"""Driver for the real MultiLock; records traces for LockTrace.tla."""
import random
import boot
boot.setup()
import trio, trio.testing
import par, report, world
from s3ql.multi_lock import MultiLock


async def run(seed, script=None, ntasks=4, n=60, keys=('x', 'y'), quiet=0.3):
    """Stimuli: acquire / nowait / release / cancel; between them a random number of scheduler rounds."""
    rng = random.Random(seed)
    lock = MultiLock()
    tr = [dict(op='init', tasks=ntasks)]
    hold, scope, busy = {}, {}, {}

    async def ticks(k):
        for _ in range(k):
            await trio.lowlevel.checkpoint()

    async def acquire(t, k):
        with trio.CancelScope() as cs:
            scope[t] = cs
            try:
                await lock.acquire(k)
            except trio.Cancelled:
                tr.append(dict(op='gaveup', t=t))
                busy.pop(t)
                raise
            tr.append(dict(op='got', t=t, k=k))
            hold[t] = k
            busy.pop(t)
        scope.pop(t, None)
        if cs.cancelled_caught and t in hold:
            pass

    async def release(t, k, cancelled):
        tr.append(dict(op='release', t=t, k=k))
        hold.pop(t)
        with trio.CancelScope() as cs:
            if cancelled:
                cs.cancel()
            await lock.release(k)
        tr.append(dict(op='released', t=t))
        busy.pop(t)

    async def ctx(t, k):
        # as a context manager
        async with lock(k):
            tr.append(dict(op='got', t=t, k=k))
            await ticks(rng.randrange(4))
            tr.append(dict(op='release', t=t, k=k))
        tr.append(dict(op='released', t=t))
        busy.pop(t)

    async def quiet_now():
        await trio.testing.wait_all_tasks_blocked(0.0)
        tr.append(dict(op='quiet'))

    async with trio.open_nursery() as nur:
        steps = list(script or [])
        for j in range(len(steps) if script else n):
            if script:
                e = steps[j]
                a, t, k = e['a'], e['t'], e['k']
            else:
                a = rng.choice(('acquire', 'acquire', 'nowait', 'release', 'release', 'cancel', 'cancelhold', 'ctx'))
                t, k = rng.randrange(ntasks) + 1, rng.choice(keys)
            if a in ('release', 'cancelhold'):
                if t not in hold or t in busy:
                    continue
                busy[t] = a
                nur.start_soon(release, t, hold[t], a == 'cancelhold')
            elif a == 'acquire' or a == 'ctx':
                if t in hold or t in busy:
                    continue
                busy[t] = a
                tr.append(dict(op='want', t=t, k=k))
                nur.start_soon(acquire if a == 'acquire' else ctx, t, k)
            elif a == 'nowait':
                if t in hold or t in busy:
                    continue
                ok = lock.acquire_nowait(k)
                tr.append(dict(op='nowait', t=t, k=k, ok=bool(ok)))
                if ok:
                    hold[t] = k
            elif a == 'cancel':
                if busy.get(t) == 'acquire' and t in scope:
                    scope[t].cancel()
            if a == 'run':
                await ticks(1)
            elif rng.random() < quiet:
                await quiet_now()
            else:
                await ticks(rng.randrange(4))
        # drain: all holders release, everyone else must get through
        for _ in range(200):
            await quiet_now()
            if not hold and not busy:
                break
            for t in sorted(hold):
                if t not in busy:
                    busy[t] = 'release'
                    nur.start_soon(release, t, hold[t], False)
        if hold or busy:
            tr.append(dict(op='exception', text='locks never released'))
        nur.cancel_scope.cancel()
    return tr


def record(job):
    seed, kw = job
    try:
        return world.run_trio(lambda: run(seed, **kw), seed=seed, timeout=60)
    except BaseException as exc:
        if isinstance(exc, par.WallHang) or not report.from_code_under_test(exc):
            raise
        return [dict(op='init', tasks=1), dict(op='exception', text=report.describe(exc))]


def run_many(jobs):
    out = []
    for j, r in zip(jobs, par.pmap(record, jobs)):
        if isinstance(r, (par.Failed, par.Died)):
            if isinstance(r, par.Failed) and not (r.code or r.hang):
                raise RuntimeError(r.tb)
            r = [dict(op='init', tasks=1), dict(op='exception', text=getattr(r, 'text', 'process died'))]
        out.append(r)
    return out
