"""Driver for the real LinkedDict; records traces for LinkedTrace.tla."""
import random
import boot
boot.setup()
import par, report
from s3ql._linked_dict import LinkedDict


def run(seed, script=None, n=120, nkeys=6, maxit=3):
    rng = random.Random(seed)
    d = LinkedDict()
    tr = [dict(op='init')]
    its, pend = {}, set()
    cnt = 0

    def call(f):
        try:
            return f()
        except KeyError:
            return dict(err='KeyError')
        except StopIteration:
            return dict(err='StopIteration')

    def do(a, k, i):
        nonlocal cnt
        if a == 'set':
            cnt += 1
            d[k] = cnt
            tr.append(dict(op='set', k=k, v=cnt))
        elif a == 'del':
            tr.append(dict(op='del', k=k, res=call(lambda: d.__delitem__(k) or dict(ok=1))))
        elif a == 'pop':
            tr.append(dict(op='pop', k=k, res=call(lambda: dict(val=d.pop(k)))))
        elif a == 'move':
            tr.append(dict(op='move', k=k, res=call(lambda: d.move_to_tail(k) or dict(ok=1))))
        elif a == 'item':
            tr.append(dict(op='item', k=k, res=call(lambda: dict(val=d[k]))))
        elif a == 'get':
            tr.append(dict(op='get', k=k, res=dict(val=d.get(k, -7))))
            tr.append(dict(op='item', k=k, res=call(lambda: dict(val=d[k]))))
        elif a == 'contains':
            tr.append(dict(op='contains', k=k, res=dict(val=k in d)))
        elif a == 'len':
            tr.append(dict(op='len', res=dict(val=len(d))))
        elif a == 'items':
            tr.append(dict(op='items', res=[list(x) for x in d.items()]))
            tr.append(dict(op='keys', res=list(d.keys()) if rng.random() < .5 else list(d)))
            tr.append(dict(op='values', res=list(d.values())))
        elif a == 'all':
            out = []
            for v in d.mutable_values():
                out.append(v)
                if len(out) > 1000:
                    break
            tr.append(dict(op='all', res=out))
        elif a == 'start':
            if i not in its and len(its) < maxit:
                its[i] = None
        elif a == 'next':
            if i not in its:
                return
            if its[i] is None:
                its[i] = iter(d.mutable_values())
                tr.append(dict(op='start', i='i%d' % i))
            r = call(lambda: dict(val=next(its[i])))
            tr.append(dict(op='next', i='i%d' % i, res=r))
            if 'err' in r:
                its.pop(i)
        elif a == 'close':
            if its.get(i) is not None:
                it = its.pop(i)
                if rng.random() < 0.5 and hasattr(it, 'close'):
                    it.close()
                del it
                tr.append(dict(op='close', i='i%d' % i))
            else:
                its.pop(i, None)

    ops = ('set', 'set', 'set', 'del', 'pop', 'move', 'move', 'get', 'item', 'contains', 'len', 'items', 'all', 'start', 'next', 'next',
           'next', 'next', 'close')
    try:
        for e in script or range(n):
            if script:
                do(e['a'], e.get('k', 0), e.get('i', 0))
            else:
                do(rng.choice(ops), rng.randrange(nkeys), rng.randrange(maxit))
        do('all', 0, 0)
        for i in list(its):
            for _ in range(50):
                do('next', 0, i)
        do('all', 0, 0)
        do('len', 0, 0)
        do('items', 0, 0)
    except Exception as exc:
        tr.append(dict(op='exception', text=repr(exc)))
    return tr


def record(job):
    return run(job[0], **job[1])


def run_many(jobs):
    out = []
    for j, r in zip(jobs, par.pmap(record, jobs, wall=30)):
        if isinstance(r, (par.Failed, par.Died)):
            if isinstance(r, par.Failed) and not (r.code or r.hang):
                raise RuntimeError(r.tb)
            r = [dict(op='init'), dict(op='exception', text=getattr(r, 'text', 'process died'))]
        out.append(r)
    return out
