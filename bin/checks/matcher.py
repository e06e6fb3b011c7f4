"""C18: matching of keypoints between two frames."""
import itertools
import random
import vlib


def hexd(bits, n):
    by = [0] * n
    for b in bits:
        by[b // 8] |= 1 << (b % 8)
    return ''.join('%02x' % x for x in by)


def token(type, bytes, h, small, large, dt, now, before):
    return 'm:%d:%d:%d:%d:%d:%d:%s:%s' % (type, bytes, h, small, large, dt,
        ','.join('%d.%d.%s' % (x, y, hexd(d, bytes)) for x, y, d in now),
        ','.join('%d.%d.%d.%s' % (x, y, ok, hexd(d, bytes)) for x, y, ok, d in before))


def fuzzy(now, before, h, small, large):
    n = 0
    for px, py, ok, _ in before:
        for x, y, _ in now:
            for w in (small, large):
                dx, dy = x - px, y - py
                must = -4 * w <= dx <= 4 * w - px % 4 and (-4 * w if px % 4 == y % 4 == 0 and py % 4 == 0 else 4 - 4 * w) <= dy <= 4 * w - 4 and y < 4 * (h - 1)
                may = -4 * w - 4 < dx <= 4 * w and -4 * w - 2 <= dy <= 4 * w + 2
                n += must != may
    return n


def scene(r, sure=True):
    """Two frames of clustered keypoints whose descriptors are near to one another."""
    while True:
        bytes = r.choice([2, 2, 4, 4, 5, 8, 16])
        bits = 8 * bytes
        h = r.choice([12, 40, 40, 100])
        small = r.choice([1, 2, 3, 5, 10])
        large = small * r.choice([1, 2, 2, 3])
        na, nb = r.choice([0, 1, 2, 3, 3, 4, 5]), r.choice([0, 1, 2, 3, 3, 4, 5])
        protos = [set(r.sample(range(bits), r.randint(0, bits))) for _ in range(r.choice([1, 1, 2, 3]))]
        reach = r.choice([1, 2, max(1, bits // 8), max(1, bits // 5 + 1), bits])
        if r.random() < .3:   # descriptors on a line: exact ties and near ties
            desc = lambda: set(range(r.choice([0, 0, 1, 2, 3, bits // 8, bits // 6, bits // 5, bits])))
        else:
            desc = lambda: r.choice(protos) ^ set(r.sample(range(bits), r.randint(0, reach)))
        spots = [(r.randint(0, 40), r.randint(0, h - 1)) for _ in range(r.choice([1, 1, 2, 3]))]
        frac = r.choice([1, 1, 4])

        def at():
            x, y = r.choice(spots)
            k = r.choice([0, small, large, large + 2])
            q = lambda v, top: min(max(4 * (v + r.randint(-k, k)) + (r.randrange(4) if frac > 1 else 0), 0), top)
            return q(x, 400), q(y, 4 * h - 1)
        now = [at() + (desc(),) for _ in range(na)]
        before = [at() + (int(r.random() < .93), desc()) for _ in range(nb)]
        if fuzzy(now, before, h, small, large) <= 2:
            return token(r.choice([0, 0, 0, 1, 2]), bytes, h, small, large, r.choice([1, 1, 1000]), now, before)


def programs(n, rng):
    return [' '.join(scene(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))) for _ in range(n)]


def every():
    out = []
    C = lambda n, start=0: set(range(start, start + n))
    # One pair: every distance, every position relative to the windows.
    for bytes in (1, 2, 4, 8, 16, 32, 64):
        for d in range(8 * bytes + 1) if bytes < 8 else [0, 1, 8 * bytes // 5 - 1, 8 * bytes // 5, 8 * bytes // 5 + 1, 8 * bytes - 1, 8 * bytes]:
            out.append(token(0, bytes, 50, 5, 10, 1, [(80, 80, C(d))], [(80, 80, 1, set())]))
    for dx in range(-12, 13):
        for dy in (-11, -10, -9, -6, -5, -4, 0, 4, 6, 9, 11):
            out.append(token(0, 2, 50, 5, 10, 1, [(80 + 4 * dx, 80 + 4 * dy, C(1))], [(80, 80, 1, set())]))
    # Two candidates: all distances of both, in either order of rows, near and far, with one or two rivals.
    for d1, d2 in itertools.product(range(0, 9), repeat=2):
        for y1, y2 in ((78, 82), (82, 78), (80, 80), (80, 108), (108, 80), (108, 110)):
            out.append(token(0, 4, 50, 5, 10, 1, [(80, y1, C(d1)), (84, y2, C(d2, 20))], [(80, 80, 1, set())]))
    # Two keypoints compete for one or two partners; losers' second choices.
    for e in itertools.product([0, 1, 3, 4], [0, 1, 4], [1, 3, 5, 6], [0, 2, 4]):
        a = [(80, 80, set()), (84, 84, C(12, 8))]
        b = [(80, 80, 1, C(e[0])), (80, 84, 1, C(e[1], 3)), (84, 80, 1, C(12 - e[2], 8)), (84, 84, 1, C(e[3]))]
        for k in (2, 3, 4):
            out.append(token(0, 4, 50, 5, 10, 1, a, b[:k]))
            out.append(token(0, 4, 50, 5, 10, 1, a + [(88, 80, C(2, 2))], b[4 - k:]))
    # Chains of losers: many keypoints near a few similar ones.
    for n, m in itertools.product(range(1, 6), range(1, 6)):
        out.append(token(0, 8, 50, 5, 10, 1, [(80 + i, 80, C(8 - 2 * i)) for i in range(m)], [(80, 80 + i, 1, C(2 * i)) for i in range(n)]))
        out.append(token(0, 16, 50, 5, 10, 1, [(80 + i, 80, C(3 * i)) for i in range(m)], [(80, 80 + i, 1, C(3 * m - i)) for i in range(n)]))
        out.append(token(1, 4, 50, 5, 10, 1, [(80, 80, C(i)) for i in range(m)], [(80, 80, 1, C(i)) for i in range(n)]))
        out.append(token(0, 4, 50, 5, 10, 1, [(80, 80, set()) for i in range(min(m, 3))], [(80, 80, 1, set()) for i in range(min(n, 3))]))
    # Three and four keypoints compete for one partner, in every order of merit; losers compete for a second one.
    for d in itertools.product(range(7), repeat=3):
        out.append(token(0, 4, 50, 5, 10, 1, [(80, 80, set())], [(80, 80, 1, C(k)) for k in d]))
    for d in itertools.product((1, 3, 5), repeat=4):
        out.append(token(0, 4, 50, 5, 10, 1, [(80, 80, set())], [(80, 80, 1, C(k)) for k in d]))
    for ms in itertools.permutations(range(2, 7), 3):
        ks = [(80, 80, 1, {i} | C(m, 40)) for i, m in enumerate(ms)]
        for w in range(4):
            out.append(token(0, 16, 50, 5, 10, 1, [(80, 80, set()), (84, 80, C(20, 40))], ks[:w] + [(80, 80, 1, set())] + ks[w:]))
    # Predictions that failed, no keypoints, refused arguments, one matching after another with other sizes.
    out.append(token(0, 2, 50, 5, 10, 1, [(80, 80, set())], [(80, 80, 0, set())]))
    out.append(token(0, 2, 50, 5, 10, 1, [(80, 80, set()), (84, 80, C(9))], [(80, 80, 0, set()), (80, 80, 1, C(1)), (80, 84, 0, C(9))]))
    for na, nb in itertools.product(range(2), repeat=2):
        out.append(token(0, 2, 50, 5, 10, 1, [(80, 80, set())] * na, [(80, 80, 1, set())] * nb))
    for small, large, dt, h, bytes in ((5, 4, 1, 50, 2), (0, 4, 1, 50, 2), (-1, 4, 1, 50, 2), (5, 10, 0, 50, 2), (5, 10, -3, 50, 2), (5, 10, 1, 0, 2), (5, 10, 1, 50, 65), (5, 10, 1, 50, 64), (5, 5, 1, 50, 2), (100, 200, 1, 50, 2)):
        out.append(token(0, bytes, h, small, large, dt, [(80, 80, set())], [(80, 80, 1, C(1))]))
    sizes = (1, 2, 4, 8)
    for s, t in itertools.permutations(sizes, 2):
        for d in (1, s * 8 // 5, t * 8 // 5, t * 8):
            out.append(token(0, s, 50, 5, 10, 1, [(80, 80, set())], [(80, 80, 1, set())]) + ' ' + token(0, t, 50, 5, 10, 1, [(80, 80, set())], [(80, 80, 1, C(min(d, 8 * t)))]))
    # Image borders.
    for y, py in itertools.product((0, 4, 20, 160, 192, 196), repeat=2):
        out.append(token(0, 2, 50, 5, 10, 1, [(0, y, set()), (y, 0, set())], [(0, py, 1, set()), (py, 0, 1, C(1))]))
    return out


def run(ctx):
    drv = vlib.build('matcher')[0]
    vlib.model(ctx, 'MCMatcher', 'MCMatcher.cfg', consts={'Distances': '{1,3}'})
    vlib.model(ctx, 'MCMatcher', 'MCMatcher.cfg', consts={'NB': '2'})
    if not ctx.quick:
        vlib.model(ctx, 'MCMatcher', 'MCMatcher.cfg', consts={'Distances': '{1,2,4}'}, timeout=800)
        vlib.model(ctx, 'MCMatcher', 'MCMatcher.cfg', consts={'NB': '2', 'NA': '3', 'Distances': '{1,2,4}'}, timeout=800)
        vlib.model(ctx, 'MCMatcher', 'MCMatcher.cfg', consts={'NB': '4', 'NA': '2', 'Distances': '{1,2}'}, timeout=800)
    rng = random.Random(ctx.seed)
    for name, p in (('operations', every()), ('scenes', programs(2500 if ctx.quick else 30000, rng))):
        traces, stats = vlib.explore(drv, p, name='ma')
        vlib.judge_suite(ctx, name, 'MatcherTrace', 'MatcherTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['borders of the search windows are checked to within a pixel', 'keypoints lie within the image rows']


CHECKS = {'C18': run}
