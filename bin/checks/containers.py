"""C15: container helpers."""
import itertools, random
import vlib

KINDS = 'vdfckro1'


def programs(n, rng):
    out = []
    for _ in range(n):
        kind = rng.choice(KINDS)
        size = rng.choice([0, 1, 2, 3, 5, 8, 13, 20])
        nk = rng.choice([1, 2, 4, 40])
        t = ['N:%s:%s' % (kind, ','.join(str(rng.randrange(nk)) for _ in range(size)))]
        for _ in range(rng.randint(1, 8)):
            k = rng.choice('eeeeekkdsnc')
            if k == 'e':
                m = rng.choice([0, 0, 1, 1, 2, 3, size])
                idx = rng.sample(range(max(size, 1)), min(m, size))
                if rng.random() < .05:
                    idx.append(size + rng.randrange(3))
                free = kind in 'vd' and rng.random() < .5
                if not (kind in 'vd'):
                    idx.sort()
                cnt = '-' if free else ('0' if rng.random() < .95 else rng.choice(['1', '-1']))
                if cnt == '-1' and size == 0:
                    cnt = '0'
                t.append('e:%s:%s' % (cnt, ','.join(map(str, idx))))
                if cnt in '-0' and all(i < size for i in idx):
                    size -= len(idx)
            elif k == 'k':
                m = rng.choice([0, 1, 2, size, size + 1, max(size - 1, 0)])
                t.append('k:%d:%d' % (m, rng.randrange(2)))
                size = min(size, m)
            elif k == 'd':
                t.append('d:%d:%d' % (rng.choice([0, 1, 2, size, size + 1, max(size - 1, 1)]), rng.randrange(2)))
            elif k == 'n':
                t.append('n:' + ','.join(str(rng.randrange(6)) for _ in range(rng.randrange(5))))
            else:
                t.append(k)
        out.append(' '.join(t))
    return out


def exhaustive(quick):
    """Every index set of every container kind up to a length; for vectors in every order."""
    out = []
    for n in range(0, 6 if quick else 9):
        keys = ','.join(str((7 * i) % 5) for i in range(n))
        for m in range(n + 1):
            for idx in itertools.combinations(range(n), m):
                s = ','.join(map(str, idx))
                for kind in KINDS:
                    out.append('N:%s:%s e:0:%s' % (kind, keys, s))
                    if kind == 'v':
                        out.append('N:v:%s e:-:%s' % (keys, s))
                        for p in itertools.islice(itertools.permutations(idx), 1, 24):
                            out.append('N:v:%s e:-:%s' % (keys, ','.join(map(str, p))))
        for m in range(n + 2):
            for d in (0, 1):
                out.append('N:v:%s k:%d:%d' % (keys, m, d))
                out.append('N:v:%s d:%d:%d' % (keys, m, d))
    for n in range(1, 5 if quick else 6):
        for keys in itertools.product('123', repeat=n):
            for m in range(1, n + 1):
                out.append('N:v:%s s k:%d:0' % (','.join(keys), m))
    # all containers of one kind in one trace each, to keep the number of traces small
    return out


def run(ctx):
    drv, = vlib.build('containers')
    vlib.model(ctx, 'MCContainers', 'MCContainers.cfg')
    traces, stats = vlib.explore(drv, exhaustive(ctx.quick), name='cont')
    vlib.judge_suite(ctx, 'enumerated', 'ContainersTrace', 'ContainersTrace.cfg', traces, stats, driver=drv)
    traces, stats = vlib.explore(drv, programs(4000 if ctx.quick else 40000, random.Random(ctx.seed)), name='contr')
    vlib.judge_suite(ctx, 'random', 'ContainersTrace', 'ContainersTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['index lists have no repetitions, and are ascending where the function asks for it']


CHECKS = {'C15': run}
