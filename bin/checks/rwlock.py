"""C01, C02: reader-writer locks."""
import random
import vlib

FIXED = ['rR wW', 'wW wW rR', 'ruU ruU', 'ruU wW rR', 'ruU ruU wW', 'wqW rR', 'wqW wW rR', 'rqR wW rR', 'rqR wW rR wW',
         'wqWi rRi', 'rquU wW rR', 'rqR ruU wW', 'rqR ruU ruU wW', 'rqR ruU ruU ruU wW', 'smS tmT', 'sqmS tT rR', 'tqmT rR wW',
         'wqWwW rR wW', 'rqR ruU rR wW', 'rqR rqR wW ruU', 'wqW wqW rqR', 'rqyR wW iiiii', 'wqyW rR iiiii', 'wqyW wW iiiii',
         'rqR ruU iiii', 'ruUruU ruUruU', 'sSsS tTtT', 'rRrR wWwW ruU']


def programs(n, rng):
    segs = ['rR', 'wW', 'ruU', 'sS', 'tT', 'smS', 'tmT', 'i']
    out = []
    for _ in range(n):
        th = []
        budget = rng.randint(3, 6)
        for _ in range(rng.randint(2, 4)):
            s = ''
            for _ in range(rng.randint(1, max(1, min(3, budget)))):
                g = rng.choice(segs)
                if len(g) > 1 and rng.random() < .4:
                    k = rng.randint(1, len(g) - 1)
                    g = g[:k] + rng.choice('qqyi') + g[k:]
                s += g
                budget -= 1
            th.append(s)
        out.append(' '.join(th))
    return out


def run(ctx):
    drv, = vlib.build('rwlock')
    for rf in ('FALSE', 'TRUE'):
        vlib.model(ctx, 'RwLock', 'MCRwLock.cfg', consts={'ReaderFirst': rf})
    rng = random.Random(ctx.seed)
    ps = FIXED + programs(20 if ctx.quick else 150, rng)
    for v, rf in (('b', 'FALSE'), ('f', 'TRUE')):
        traces, stats = vlib.explore(drv, [v + ' ' + p for p in ps], 0.5 if ctx.quick else 4, name='rw' + v)
        c = {'ReaderFirst': rf, 'Policy': 'TRUE'}
        relaxed = {'ReaderFirst': rf, 'Policy': 'FALSE'}
        vlib.judge_suite(ctx, 'reader-first' if v == 'f' else 'default', 'RwLockTrace', 'RwLockTrace.cfg', traces, stats,
                         full=c, own=relaxed if ctx.prop == 'C01' else None, other=relaxed if ctx.prop == 'C02' else None,
                         driver=drv)
    ctx.assumptions += ['clients use the lock correctly (release only what they hold, no recursive locking)',
                        'threads are serialised by the scheduler: sequentially consistent memory',
                        'schedules are sampled beyond the preemption bound of the systematic part']


CHECKS = {'C01': run, 'C02': run}
