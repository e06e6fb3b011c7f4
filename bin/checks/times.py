"""C21: time conversion and formatting."""
import random
import vlib

I64 = 2 ** 63


def programs(quick, rng):
    t = []
    for d in range(0, 19):
        for n in {10 ** d - 1, 10 ** d, 10 ** d + 1, 10 ** d * 5 + rng.randrange(10 ** d), rng.randrange(10 ** d, 10 ** (d + 1))}:
            for s in (1, -1):
                if -I64 <= s * n < I64:
                    t += ['t:%d' % (s * n), 'r:%d' % (s * n)]
    t += ['t:%d' % x for x in (-I64, -I64 + 1, I64 - 1, 0)] + ['r:%d' % x for x in (-I64 + 1, I64 - 1)]
    for _ in range(600 if quick else 20000):
        n = rng.choice([1, -1]) * rng.getrandbits(rng.randint(1, 63))
        t += ['t:%d' % n, 'r:%d' % n]
    for _ in range(600 if quick else 20000):
        t.append('w:%d' % (rng.choice([1, -1]) * rng.choice([rng.randrange(9 * 10 ** 9), rng.randrange(20), rng.getrandbits(rng.randint(1, 33))])))
        k = rng.randint(0, 60)
        m = rng.choice([1, -1]) * rng.getrandbits(rng.randint(1, 53))
        while abs(m) >= 2 ** (k + 40):
            m //= 16
        t.append('f:%d:%d' % (m, k))
        # close to a whole number of nanoseconds
        x = rng.randrange(10 ** rng.randint(1, 12)) * 10.0 ** -rng.randint(0, 9)
        if 0.01 < x < 1e12:
            n, d = x.as_integer_ratio()
            t.append('f:%d:%d' % (rng.choice([1, -1]) * n, d.bit_length() - 1))
    t += ['n'] * 5
    rng.shuffle(t)
    return [' '.join(t[i:i + 25]) for i in range(0, len(t), 25)]


def run(ctx):
    drv, = vlib.build('times')
    vlib.model(ctx, 'MCTime', 'MCTime.cfg', consts={} if ctx.quick else {'Max': 130})
    traces, stats = vlib.explore(drv, programs(ctx.quick, random.Random(ctx.seed)), name='time')
    vlib.judge_suite(ctx, 'conversions', 'TimeTrace', 'TimeTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['conversions stay within 64 bits', 'real-valued conversions are judged to a relative 10^-15']


CHECKS = {'C21': run}
