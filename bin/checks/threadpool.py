"""C03, C04, C05: thread pool."""
import random
import vlib

FIXED = [
    '1 E0pE0pE0x', '1 E1pE1pE0p', '2 E1pE1pE2p', '2 E1qE1pE2pE0p', '2 E1qE2qE0p', '3 E1qE1pE2qE0pE0q', '2 E0qE0qE0p',
    '2 wE0pw E0qw', '2 E0pwa E0pw', '2 E1pE1p w w', '1 E0pq w w E0p', '2 E0yE0y w wE0q', '2 E0p s', '2 E0ps E0pE0p', '1 y E0p s',
    '2 E0nE1m', '1 E0nw', '2 E0qaE0p a', '2 E0q w E0q', '2 E0qE0p w', '1 E0xE0pg', '2 E1xE1pgE1p', '3 E0qE1qE1pE2p w',
    '2 E0sE0p', '2 sE0p E0p', '2 E0yE0yE0ys', '2 E1yE1yE1ysw', '2 E0pf E0pf', '1 E0aE0q a', '2 qE0pqE0pqE1qE1pE1pE0p w',
    '3 E1yE1yE2yE2y E1pE2p', '2 E1pE1pE1p E1pE1p E1p', '2 E1qE1pE0p', '2 E1qE2qE1pE2pw', '2 qE1q w', '1 E0p w w w', '2 y w E0pE0p w',
    '3 E1qE2pE1pE3p', '2 E0qE0q s E0p', '2 E0pE0p E0ps w', '1 y E0pw s', '2 y E0p E0p s',
]


def programs(n, rng):
    out = []
    for _ in range(n):
        w = rng.choice([1, 2, 2, 3])
        left = rng.randint(2, 6)
        scripts = []
        for c in range(rng.randint(1, 3)):
            s = ''
            for _ in range(rng.randint(1, 4)):
                r = rng.random()
                if r < .62 and left > 0:
                    k = rng.choice('pppyyxqqna' + ('s' if rng.random() < .3 else 'p'))
                    left -= 2 if k == 'n' else 1
                    s += 'E%d%s' % (rng.choice([0, 0, 1, 1, 2]), k)
                else:
                    s += rng.choice('wwaqfyg' + ('s' if rng.random() < .3 else 'w'))
            scripts.append(s)
        out.append('%d %s' % (w, ' '.join(scripts)))
    return out


OWN = {'C03': '{"once"}', 'C04': '{"order"}', 'C05': '{"progress"}'}


def run(ctx):
    drv, = vlib.build('threadpool')
    vlib.model(ctx, 'MCThreadPool', 'MCThreadPool.cfg')
    if ctx.prop == 'C05' or not ctx.quick:
        vlib.model(ctx, 'MCThreadPool', 'MCThreadPoolLive.cfg')
    if not ctx.quick:
        vlib.model(ctx, 'MCThreadPool', 'MCThreadPoolLive.cfg', consts={'Thread': '{1, 2}', 'Task': '{1, 2, 3}'}, timeout=800)
    ps = FIXED + programs(15 if ctx.quick else 150, random.Random(ctx.seed))
    traces, stats = vlib.explore(drv, ps, 0.35 if ctx.quick else 2, name='tp', args=['150' if ctx.quick else '600'])
    for t in traces:
        t['_keep'] = ['n']
    vlib.judge_suite(ctx, 'pool', 'ThreadPoolTrace', 'ThreadPoolTrace.cfg', traces, stats,
                     own={'Check': OWN[ctx.prop]}, driver=drv)
    ctx.assumptions += ['the pool is not used by other threads while it is being destroyed, except by its own tasks',
                        'threads are serialised by the scheduler: sequentially consistent memory',
                        'schedules are sampled beyond the preemption bound of the systematic part']


CHECKS = {'C03': run, 'C04': run, 'C05': run}
