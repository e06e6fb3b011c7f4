"""C13: occupancy grid."""
import itertools, random
import vlib


def programs(n, rng):
    out = []
    for _ in range(n):
        ty = rng.choice('ddfi')
        un = 4 if ty == 'i' else rng.choice([1, 2, 4])
        mask = rng.random() < .3
        if mask:
            un = max(un, 1)
        cu, cv = [rng.choice([1, 2, 3, 5]) * (4 if mask else un) for _ in 'uv']
        ru, rv = [c * rng.choice([1, 2, 3]) + rng.choice([0, 0, 1, 2]) * (4 if ty == 'i' or mask else un) for c in (cu, cv)]
        if rng.random() < .03:
            ru = rng.choice([0, -un * 4, cu - un])
        t = ['N:%s:%d:%d:%d:%d' % (ty, ru, rv, cu, cv)]
        step = 4 if ty == 'i' else un
        ws = rng.choice([[1, 2, 3], [-2, 0, 2, 5], list(range(30)), [7]])
        kinds = rng.choice(['aaaacccnnntrfgwz', 'cccccccctfg', 'nnnnnnnng', 'aaaaaaaatrrf', 'acncncnctr'])
        lim, dist = rng.choice([1, 2, 3]), max(1, rng.choice([min(cu, cv) // step, min(cu, cv) // step // 2, 1])) * step

        def coord(mx):
            x = rng.randrange(0, max(step, mx), step)
            return x if rng.random() < .96 else rng.choice([-step, mx, mx + step])
        for _ in range(rng.randint(4, 30)):
            k = rng.choice(kinds)
            p = '%d:%d:%d' % (coord(ru), coord(rv), rng.choice(ws))
            if k == 'a':
                t.append('a:' + p)
            elif k == 'c':
                t.append('c:%s:%d' % (p, lim if rng.random() < .9 else rng.choice([0, 1, 2, 4])))
            elif k == 'n':
                t.append('n:%s:%d' % (p, dist if rng.random() < .9 else rng.choice([0, step, min(cu, cv), max(cu, cv), min(cu, cv) + step])))
            elif k in 'tr':
                t.append('%s:%d' % (k, rng.choice([0, 1, 1, 2, 2, 3, 5, 8])))
            elif k == 'w':
                t.append('w:%d' % rng.choice(ws))
            elif k == 'g':
                t.append('g:%d:%d' % (coord(ru), coord(rv)))
            else:
                t.append(k)
        if mask and rng.random() < .9:
            t.insert(rng.randint(1, len(t)), 'm:%d:%d' % (rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 1, 2, 3])))
            t.append('m:%d:%d' % (rng.choice([1, 2]), rng.choice([1, 2, 3])))
        out.append(' '.join(t))
    return out


def exhaustive(quick):
    """All sequences of three separated additions on a line of five places with weights 1..2 (thorough: 1..3, two rows),
    and of four limited additions into one cell."""
    out = []
    places = ['0:%d' % v for v in range(5)] if quick else ['%d:%d' % (u, v) for u in (0, 1) for v in range(5)]
    pw = ['%s:%d' % (p, w) for p in places for w in ((1, 2) if quick else (1, 2, 3))]
    if quick:
        seqs = itertools.product(pw, repeat=3)
    else:
        seqs = itertools.product(pw, repeat=3)
    for s in seqs:
        out.append('N:d:2:5:2:2 ' + ' '.join('n:%s:2' % x for x in s))
    for s in itertools.product(range(1, 5), repeat=4):
        for lim in (1, 2, 3):
            out.append('N:f:4:4:4:4 ' + ' '.join('c:%d:1:%d:%d' % (i, w, lim) for i, w in enumerate(s)) + ' t:1')
    for counts in itertools.product(range(4), repeat=3):
        for n in range(1, 6 if quick else 9):
            t, k = [], 0
            for c, m in enumerate(counts):
                for i in range(m):
                    t.append('a:0:%d:%d' % (2 * c + i % 2, (k * 5) % 7))
                    k += 1
            out.append('N:d:2:6:2:2 %s f r:%d f' % (' '.join(t), n))
    return out


def run(ctx):
    drv, = vlib.build('grid')
    vlib.model(ctx, 'MCGrid', 'MCGrid.cfg')
    for mode in ('{"limit", "thin"}', '{"dist", "thin"}'):
        vlib.model(ctx, 'MCGrid', 'MCGrid.cfg', consts={'Mode': mode, 'MaxPts': 3 if ctx.quick else 4})
    ex = exhaustive(ctx.quick)
    traces, stats = vlib.explore(drv, ex, name='grid')
    vlib.judge_suite(ctx, 'enumerated', 'GridTrace', 'GridTrace.cfg', traces, stats, driver=drv)
    traces, stats = vlib.explore(drv, programs(1500 if ctx.quick else 20000, random.Random(ctx.seed)), name='gridr')
    vlib.judge_suite(ctx, 'random', 'GridTrace', 'GridTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['coordinates are multiples of a quarter, so that distances are exact',
                        'weights are above the lowest representable number', 'cell sizes are positive',
                        'masks are judged for cell sizes that are whole pixels; the rim (one pixel) of a disc is left open']


CHECKS = {'C13': run}
