"""Driver for the real parallel job runners; records traces for PipeTrace.tla."""
import random
import boot
boot.setup()
import trio
import par, report, world
from s3ql.common import ParallelPipeline
from s3ql.backends.common import NoSuchObject


class Boom(Exception):
    def __init__(self, tag):
        super().__init__(tag)
        self.tag = tag


def leaves(exc):
    if isinstance(exc, BaseExceptionGroup):
        return [y for x in exc.exceptions for y in leaves(x)]
    return [exc]


async def ticks(k):
    for _ in range(k):
        await trio.lowlevel.checkpoint()


async def run(seed):
    rng = random.Random(seed)
    jobs = rng.choice((0, 1, 2, 3, 5, 8, 20))
    n = rng.choice((1, 2, 3, 4, 8))
    buf = rng.choice((0, 0, 1, n, 10))
    kind = rng.choice(('list', 'iter', 'async', 'delete', 'delete'))
    failing = {j: 'job%d' % j for j in range(1, jobs + 1) if rng.random() < rng.choice((0, 0, 0.1, 0.3))}
    prodfail = rng.randrange(jobs + 1) if kind in ('iter', 'async') and rng.random() < 0.2 else None
    slow = rng.choice((1, 3, 10))
    cancel_at = rng.randrange(40) if rng.random() < 0.1 else None
    tr = [dict(op='init', n=n, jobs=jobs)]
    fin = []

    async def work(j):
        tr.append(dict(op='start', j=j))
        try:
            await ticks(rng.randrange(slow) + 1)
        except trio.Cancelled:
            tr.append(dict(op='cancelled', j=j))
            raise
        if j in failing:
            tr.append(dict(op='fail', j=j, x=failing[j]))
            raise Boom(failing[j])
        tr.append(dict(op='end', j=j))

    class P(ParallelPipeline):
        async def produce(self):
            await ticks(rng.randrange(2))
            if kind == 'list':
                return list(range(1, jobs + 1))
            if kind == 'iter':
                def gen():
                    for j in range(jobs):
                        if j == prodfail:
                            tr.append(dict(op='stop', x='producer'))
                            raise Boom('producer')
                        yield j + 1
                return gen()

            async def agen():
                for j in range(jobs):
                    await ticks(rng.randrange(slow))
                    if j == prodfail:
                        tr.append(dict(op='stop', x='producer'))
                        raise Boom('producer')
                    yield j + 1
            return agen()

        async def consume(self, src):
            await ticks(rng.randrange(2))
            async for j in src:
                await work(j)
                await ticks(rng.randrange(2))

        def finalize(self):
            fin.append(1)

    class B(world.MemBackend):
        async def delete(self, key):
            await work(int(key[1:]))
            self.data.pop(key, None)

    ok, errors, rest = False, [], [0]
    with trio.CancelScope() as cs:
        async def canceller():
            await ticks(cancel_at)
            if not ended:
                tr.append(dict(op='stop', x='Cancelled'))
                cs.cancel()
        ended = []

        async def main():
            nonlocal ok, rest
            try:
                if kind == 'delete':
                    b = B(None, n)
                    keys = ['k%d' % j for j in range(1, jobs + 1)]
                    rng.shuffle(keys)
                    try:
                        await b.delete_multi(keys)
                        ok = True
                        fin.append(1)
                    finally:
                        rest = [int(k[1:]) for k in keys]
                else:
                    await P().run(n, buf)
                    ok = True
            except BaseException as exc:
                for x in leaves(exc):
                    errors.append(x.tag if isinstance(x, Boom) else type(x).__name__)
                if any(not isinstance(x, (Boom, trio.Cancelled, trio.BrokenResourceError)) for x in leaves(exc)):
                    tr.append(dict(op='exception', text=report.describe(exc)))
                if any(isinstance(x, trio.Cancelled) for x in leaves(exc)):
                    raise
            finally:
                ended.append(1)
                tr.append(dict(op='return', ok=ok, errors=errors, finalized=bool(fin), rest=rest))
        try:
            async with trio.open_nursery() as nur:
                if cancel_at is not None:
                    nur.start_soon(canceller)
                await main()
                nur.cancel_scope.cancel()
        except BaseException as exc:
            if not all(isinstance(x, (Boom, trio.Cancelled, trio.BrokenResourceError)) for x in leaves(exc)):
                raise
    await ticks(20)
    return tr


def record(seed):
    try:
        return world.run_trio(run, seed, seed=seed, timeout=2000, clock=trio.testing.MockClock(autojump_threshold=0))
    except BaseException as exc:
        if isinstance(exc, world.Hang):
            return [dict(op='init', n=1, jobs=0), dict(op='exception', text='run never returns')]
        if isinstance(exc, par.WallHang) or not report.from_code_under_test(exc):
            raise
        return [dict(op='init', n=1, jobs=0), dict(op='exception', text=report.describe(exc))]


def run_many(seeds):
    out = []
    for j, r in zip(seeds, par.pmap(record, seeds)):
        if isinstance(r, (par.Failed, par.Died)):
            if isinstance(r, par.Failed) and not (r.code or r.hang):
                raise RuntimeError(r.tb)
            r = [dict(op='init', n=1, jobs=0), dict(op='exception', text=getattr(r, 'text', 'process died'))]
        out.append(r)
    return out
