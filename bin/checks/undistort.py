"""C27: the pipeline of one camera and undistortion."""
import random
import vlib

L = lambda v: ','.join(map(str, v))
SIZE = {1: (4, 3), 2: (5, 2), 3: (4, 3)}


def mapping(r, i, o, outside=.15):
    w, h = SIZE[o]
    a, b = SIZE[i]
    pick = lambda n: r.choice([-1, n]) if r.random() < outside else r.randrange(n)
    return 'M:%d:%d:%d:%d:%s:%s' % (i, o, w, h, L(pick(a) for _ in range(w * h)), L(pick(b) for _ in range(w * h)))


def every(rng):
    out = []
    add = lambda *ops: out.append(' '.join(ops))
    for kind in range(4):
        for i in range(4):
            for o in range(4):
                if kind == 2 and not (i and o):
                    continue
                for copy in (0, 1):
                    p = 'P:%d:%d:%d:%d' % (kind, i, o, copy)
                    add(p)
                    for w in range(3, 7):
                        for h in range(1, 5):
                            if (w, h) == SIZE.get(i):
                                add(p, 'I:%d:%d:3:17' % (w, h), 'I:%d:%d:60:-4' % (w, h), 'I:%d:%d:60:0' % (w, h))
                            elif copy:
                                add(p, 'I:%d:%d:3:17' % (w, h))
    for i in (1, 2, 3):
        for o in (1, 2, 3):
            w, h = SIZE[o]
            for a, b in ((w, h), (w + 1, h), (w - 1, h), (w, h + 1), (w, h - 1), (h, w)):
                z = L([0] * (a * b))
                add('M:%d:%d:%d:%d:%s:%s' % (i, o, a, b, z, z))
                add('M:%d:%d:%d:%d:%s:%s:short' % (i, o, a, b, z, z))
            for x in (3, 4, 5):
                for y in (2, 3, 4):
                    add(mapping(rng, i, o), 'A:%d:%d:40' % (x, y))
    for kind in range(3):
        for dist in range(4):
            for how in range(3):
                if (how == 2 and kind != 1) or (how == 0 and kind == 2):
                    continue
                for w, h in ((32, 24), (24, 32), (33, 25), (16, 16)):
                    for scale in (8, 4, 12, 7):
                        add(*['U:%d:%d:%d:%d:%d:%d:%d' % (kind, dist, w, h, scale, a, how) for a in (0, 4, 2, 1, 3, 0)])
                for scale, alpha in ((0, 0), (-8, 0), (8, -1), (8, 5)):
                    add('U:%d:%d:32:24:%d:%d:%d' % (kind, dist, scale, alpha, how))
    return out


def program(r):
    out, pipe, m = [], None, None
    for _ in range(r.randint(3, 14)):
        op = r.choice('PIIIIMAAAU')
        if op == 'P' or (op == 'I' and not pipe):
            pipe = r.choice([1, 2, 3])
            out.append('P:%d:%d:%d:%d' % (r.randrange(3), pipe, r.choice([1, 2, 3]), r.randint(0, 1)))
        elif op == 'I':
            out.append('I:%d:%d:%d:%d' % (SIZE[pipe] + (r.randint(0, 90), r.randint(-5, 2000))))
        elif op == 'M' or (op == 'A' and not m):
            m = r.choice([1, 2, 3])
            out.append(mapping(r, m, r.choice([1, 2, 3]), r.choice([0, .2, .6])))
        elif op == 'A':
            out.append('A:%d:%d:%d' % (SIZE[m] + (r.randint(0, 90),)))
        elif r.random() < .5:
            kind = r.randrange(2)
            w = r.randint(24, 40)
            base = 'U:%d:%d:%d:%d:%d' % (kind, r.randrange(4), w, r.randint(round(.7 * w), w), r.randint(4, 14))
            how = r.choice([0, 1, 2] if kind else [0, 1])
            out += ['%s:%d:%d' % (base, a, how) for a in (0, 4, r.randint(0, 4))]
    return ' '.join(out)


def programs(n, rng):
    return [program(rng) for _ in range(n)]


def run(ctx):
    drv = vlib.build('undistort')[0]
    vlib.model(ctx, 'MCUndistort', 'MCUndistort.cfg', consts={} if ctx.quick else {'Most': '5'}, timeout=800)
    rng = random.Random(ctx.seed)
    for name, p in (('operations', every(rng)), ('histories', programs(1000 if ctx.quick else 12000, rng))):
        traces, stats = vlib.explore(drv, p, name='un')
        vlib.judge_suite(ctx, name, 'UndistortTrace', 'UndistortTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['images of one channel; an undistorter has two cameras; distortions are mild enough to be inverted all over the image']


CHECKS = {'C27': run}
