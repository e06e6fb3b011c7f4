"""C25: calibration targets."""
import random
import vlib

L = lambda v: ','.join(map(str, v))
NOSHIFT = [0] * 10
SHIFTS = [0, 0, 1, 0, -1, 1, 0, 3, 2, -2]


def tag(id, x, y, good=1, size=12, at=None):
    """A tag with its lower left corner at x, y (quarters of a pixel)."""
    c = at or [x, y + size, x + size, y + size, x + size, y, x, y]
    return [id, good] + c


def detect(tags, refine=0, far=24, least=1, border=16, w=40, h=30, shifts=SHIFTS):
    return 'd:%d:%d:%d:%d:%d:%d:%s:%s' % (refine, far, least, border, w, h, L(shifts), L([v for t in tags for v in t]))


def every():
    out = []
    add = lambda *ops: out.append(' '.join(ops))
    for r in range(0, 5):
        for c in range(0, 5):
            for size, gap in ((8, 2), (3, 7), (1, 1), (16, 16)):
                add('t:%d:%d:%d:%d' % (r, c, size, gap))
    for size, gap in ((0, 1), (1, 0), (-1, 2), (2, -1), (-3, -3)):
        add('t:2:3:%d:%d' % (size, gap))
    for i in (0, 3, 7, 8, 23, 24, 30):
        add('t:2:3:8:2', 'm:%d:-5:40:7' % i, 'o:5:6:0,%d:4,8,1,2' % min(max(i, 1), 23))
    base = ['aprilgrid', '2', '3', '0.5', '0.5']
    for k, vs in enumerate((['-', 'checkerboard', 'x', '[1]', 'Aprilgrid'], ['-', 'x', '[1]', '0', '1', '3'], ['-', 'x', '[1]', '0', '1', '2'],
                            ['1', '2', '0.25', '0', '-1'], ['-', 'x', '[1]', '1', '2', '0.25', '0', '-1'])):
        for v in vs:
            d = base[:k] + [v] + base[k + 1:]
            add('y:' + ':'.join(d))
            if k in (1, 2):
                add('t:1:1:8:8', 'y:' + ':'.join(d), 'o:1:2:3,0:1,1,2,2')
    # Observations: every set of corners of one tag in every order of a rotation; mismatching numbers.
    for m in range(16):
        ids = [i for i in range(4) if m >> i & 1]
        for k in range(max(1, len(ids))):
            v = ids[k:] + ids[:k]
            add('t:1:1:8:2', 'o:48:64:%s:%s' % (L(v), L([5 * i + j for i in v for j in (1, 2)])))
    for ids, n in (([], 2), ([0], 0), ([0, 1], 2), ([0], 4), ([2, 1, 0], 6)):
        add('t:1:2:8:2', 'o:2:3:%s:%s' % (L(ids), L(range(n))))
    for i in range(24):
        add('t:2:3:8:2', 'o:7:9:%d:3,4' % i, 'o:7:9:%s:%s' % (L(j for j in range(24) if j != i), L(range(46))))
    add('t:2:3:8:2', 'o:7:9:%s:%s' % (L(reversed(range(24))), L(range(48))))
    # Detection.
    for r, c in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2)):
        t = 't:%d:%d:8:2' % (r, c)
        n = r * c
        for i in range(n + 2):
            for refine in (0, 1):
                add(t, detect([tag(i, 24 + i, 30)], refine))
                add(t, detect([tag(i, 24 + i, 30, 0)], refine, least=0))
        full = [tag(i, 20 + 13 * (i % c), 20 + 14 * (i // c)) for i in range(n)]
        for refine in (0, 1):
            add(t, detect(full, refine), detect(full[::-1], refine))
        for least in range(n + 2):
            add(t, detect(full, least=least))
            add(t, detect(full[:-1] + [tag(n - 1, 20, 90, 0)], least=least))
            add(t, detect(full + [tag(n, 40, 40)], least=least))
        for i in range(n):
            add(t, detect(full + [tag(i, 60, 60)]), detect(full + [tag(i, 60, 60, 0)]), detect(full + [tag(i, 0, 60)]), detect([full[i]] * 2, least=0))
        add(t, detect([], least=0), detect([], least=1))
    for k in range(8):
        for v in (-4, 0, 15, 16, 17, 103, 104, 105, 120, 143, 144, 145, 160, 170):
            c = [50, 62, 62, 62, 62, 50, 50, 50]
            c[k] = v
            for border in (16, 0, 18):
                add('t:2:2:8:2', detect([tag(1, 0, 0, at=c)], least=0, border=border))
    for far in (0, 1, 2, 4, 5, 8, 9, 10, 24):
        for s in (SHIFTS, NOSHIFT, [1, 1, 2, 0, -1, -2, 0, 3, 1, -3], [0, 1, -2, 2, 0, -2, 1, 0, -3, 0]):
            for refine in (0, 1):
                add('t:2:2:8:2', detect([tag(3, 30, 31), tag(0, 61, 40)], refine, far, shifts=s))
    return out


def program(r):
    rows, cols = r.randint(1, 4), r.randint(1, 4)
    out = ['t:%d:%d:%d:%d' % (rows, cols, r.randint(1, 20), r.randint(1, 20))]
    n = rows * cols
    for _ in range(r.randint(2, 8)):
        op = r.choice('ooddddmy')
        if op == 'm':
            out.append('m:%d:%d:%d:%d' % (r.randrange(4 * n), r.randint(-40, 40), r.randint(-40, 40), r.randint(-9, 9)))
        elif op == 'o':
            ids = r.sample(range(4 * n), r.randint(0, 4 * n))
            out.append('o:%d:%d:%s:%s' % (r.randint(1, 999), r.randint(1, 999), L(ids), L(r.randint(-20, 4000) for _ in range(2 * len(ids)))))
        elif op == 'd':
            w, h = r.randint(20, 60), r.randint(20, 60)
            tags = []
            for i in r.sample(range(n), r.randint(0, n)) + ([r.randrange(n + 3)] if r.random() < .3 else []):
                size = r.randint(4, 30)
                t = tag(i, r.randint(8, 4 * w - 40), r.randint(8, 4 * h - 40), int(r.random() < .9), size)
                if r.random() < .1:
                    t[2 + r.randrange(8)] = r.choice([-3, 0, 5, 4 * w, 4 * h, 300])
                tags.append(t)
            r.shuffle(tags)
            out.append(detect(tags, r.randint(0, 1), r.choice([0, 2, 5, 9, 24]), r.randint(0, 4), r.choice([0, 8, 16, 21]), w, h, [r.randint(-3, 3) for _ in range(10)]))
        elif op == 'y' and r.random() < .3:
            rows, cols = r.randint(1, 3), r.randint(1, 3)
            n = rows * cols
            out.append('y:aprilgrid:%d:%d:%s:%s' % (rows, cols, r.choice(['1', '0.5', '2', '0.25']), r.choice(['1', '0.5', '2'])))
    return ' '.join(out)


def programs(n, rng):
    return [program(rng) for _ in range(n)]


def run(ctx):
    drv = vlib.build('targets')[0]
    vlib.model(ctx, 'MCTargets', 'MCTargets.cfg', consts={} if ctx.quick else {'MaxRows': '3', 'MaxTags': '3'}, timeout=800)
    rng = random.Random(ctx.seed)
    for name, p in (('operations', every()), ('histories', programs(1500 if ctx.quick else 20000, rng))):
        traces, stats = vlib.explore(drv, p, name='tg')
        vlib.judge_suite(ctx, name, 'TargetsTrace', 'TargetsTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['the detector of tags and the refinement of corners are scripted; tag numbers are not negative; the corners given to an observation are distinct points of the target']


CHECKS = {'C25': run}
