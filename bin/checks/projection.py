"""C23: projection and back-projection."""
import random
import vlib

PINHOLE = ['4,4,4,3', '8,4,4,3', '2,4,5,1', '3,5,7/2,5/2']
UNIFIED = ['1,4,4,4,3', '0,4,4,4,3', '1/2,4,6,5,2', '2,5,4,4,3', '3/2,4,4,7/2,5/2', '3/4,3,5,4,3']
LIDAR = [('1/8p,1/16p,1/2p,0p', 16, 16), ('1/8p,1/8p,1/2p,1/2p', 16, 8), ('1/4p,1/8p,1/4p,1p', 8, 4), ('1/16p,1/12p,1/2p,1/4p', 32, 12)]
RADTAN = ['0,0,0,0', '1/8,0,0,0', '0,1/16,0,0', '0,0,1/8,0', '0,0,0,1/8', '1/8,-1/16,1/16,-1/8', '-1/8,1/16,-1/16,1/16', '1/4,1/8,1/8,1/4']
EQUI = ['0,0,0,0', '1/8r,0,0,0', '0,1/8s,0,0', '0,0,1/8t,0', '0,0,0,1/8u', '1/8r,-1/16s,1/16t,-1/16u', '-1/8r,1/16s,1/8t,-1/16u']
FISH = ['1/2', '1', '3/2', '0']
TRIPLES = [(2, 2, 1), (2, 1, 2), (1, 2, 2), (3, 0, 4), (0, 3, 4), (4, 0, 3), (0, 4, 3), (2, 3, 6), (3, 2, 6), (6, 2, 3), (3, 6, 2), (4, 4, 7), (1, 4, 8), (4, 7, 4), (0, 0, 1), (0, 0, 3), (1, 0, 0), (0, 2, 0), (5, 0, 12), (8, 4, 1)]
UNIT = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (1, 0, 1), (0, 1, 1), (0, 0, 1), (0, 2, 2), (6, 8, 10)]
FISHY = [(0, 0, 1), (3, 4, 5), (1, 0, 1), (0, 1, 1), (1, 1, 2), (1, 0, 2), (0, 1, 2), (1, 2, 4), (2, 1, 4), (1, 1, 1), (1, 2, 2), (1, 0, 4), (1, 1, 4), (0, 1, 4)]
W = ' '


def cam(kind, intr, w=8, h=6, dist=0, coef=''):
    if dist == 2:
        i = intr.split(',')
        k = 1 if kind == 1 else 0
        i[k] += 'q'
        i[k + 1] += 'q'
        intr = ','.join(i)
    return 'cam:%d:%s:%d:%d:%d:%s' % (kind, intr, w, h, dist, coef)


def signs(p):
    return sorted({(sx * p[0], sy * p[1], sz * p[2]) for sx in (1, -1) for sy in (1, -1) for sz in (1, -1)})


def point(p, e=0):
    return 'p:%d:%d:%d:%d' % (p + (e,))


def chunks(c, ops, n=60):
    return [' '.join([c] + ops[i:i + n]) for i in range(0, len(ops), n)]


def every():
    out = []
    # Pinholes without distortion: a grid of points across all edges of the image, near the camera and behind it.
    grid = [(x, y, z) for z in (-2, -1, 0, 1, 2, 4) for x in range(-5, 6) for y in range(-4, 5)]
    for e in (0, 33, 34, 40):
        out += chunks(cam(0, PINHOLE[0]), [point(p, e) for p in (grid if e == 0 else grid[::5])])
    near = [p for p in grid if abs(p[0]) <= 2 and abs(p[1]) <= 2]
    for i in PINHOLE:
        c = cam(0, i)
        for w in (-2, 0, 1, 3):
            out += chunks(c, ['h:%d:%d:%d:%d:0' % (p + (w,)) for p in near[::3]])
        out += chunks(c, ['t:%d:%d:%d' % p for p in near if p[2]])
        out += chunks(c, ['j:%d:%d:%d' % p for p in near if p[2] > 0])
        out += chunks(c, ['b:%s:%s' % (u, v) for u in ('0', '1', '4', '7/2', '8', '-1', '11') for v in ('0', '3', '5', '6', '-2', '1/4')])
        out += chunks(c, ['x:%d:%d:%d:0:%s:%s' % (p + (i, c)) for p in near[::9] for i in ('-', '8,2,1,5', '1,1,4,3', '8,2,1', '8,2,1,5,6', '0,-4,3,3') for c in ('-', '0')])
        out += [c + ' y', c + ' r:3:30:1', c + ' r:1/2:30:2']
    out += [cam(0, '4,4,4,3', w, h) + ' y r:2:9:1 p:1:1:1:0 p:0:0:1:0' for w, h in ((1, 1), (2, 7), (9, 2), (640, 480))]
    # Distortion.
    for dist, coefs, ps in ((1, RADTAN, near), (2, EQUI, UNIT), (3, FISH, FISHY)):
        for n, k in enumerate(coefs):
            for i in PINHOLE[:3] if n < 2 else PINHOLE[2:3] + ['2,3,4,3']:
                c = cam(0, i, dist=dist, coef=k)
                pts = ps if dist == 1 else [q for p in ps for q in signs(p)]
                out += chunks(c, [point(p) for p in pts])
                front = [p for p in pts if p[2] > 0]
                most = 2 if dist == 1 else 1
                small = [p for p in front if most * abs(p[0]) <= p[2] and most * abs(p[1]) <= p[2]] if k != '1/4,1/8,1/8,1/4' else []
                out += chunks(c, ['j:%d:%d:%d' % p for p in front])
                out += chunks(c, ['t:%d:%d:%d' % p for p in small + [(-x, -y, -z) for x, y, z in small]])
                out += chunks(c, ['h:%d:%d:%d:-1:0' % (-x, -y, -z) for x, y, z in front[::2]] + ['h:%d:%d:%d:0:0' % p for p in front[::3]])
            c = cam(0, PINHOLE[0], dist=dist, coef=k)
            if k != '1/4,1/8,1/8,1/4':
                out += chunks(c, ['d:%s:%s' % m for m in (('0', '0'), ('1/2', '0'), ('0', '1/2'), ('1/2', '1/4'), ('-1/2', '1/2'), ('1/4', '-1/2'), ('3/5', '4/5'), ('-4/5', '3/5'), ('1/4', '1/4'), ('-1/4', '-1/2'))]
                              + (['d:1/1024:-1/512', 'd:0:1/512'] if dist == 3 else ['d:1/8:1/8', 'd:0:1/8']))
            for other in coefs:
                other = ','.join(x.strip() for x in other.split(','))
                out.append(' '.join([c] + ['x:%d:%d:%d:0:%s:%s' % (p + (i, other)) for p in (UNIT if dist == 2 else FISHY if dist == 3 else near)[::4] if p[2] > 0
                                           for i in (('-', '1q,2q,5,1') if dist == 2 else ('-', '1,2,5,1'))]))
            out.append(' '.join([c, 'x:1:1:2:0:-:1,2', 'x:1:1:2:0:-:1']))
            out.append(' '.join([c, 'x:1:1:2:0:-:1,2,3,4,5']))
            if not k.startswith('1/4'):
                c = cam(0, '8,8,4,3', dist=dist, coef=k)
                out += [c + ' r:2:20:%d' % s for s in (1, 2)] + [c + ' y']
    # Back-projection of keypoints whose rays have small coordinates.
    from fractions import Fraction as F
    for k in RADTAN[:7]:
        kk = [F(x) for x in k.split(',')]
        ops = []
        for a in (F(0), F(1, 2), F(-1, 2), F(1, 4)):
            for b in (F(0), F(1, 4), F(-1, 4), F(1, 2)):
                r = a * a + b * b
                g = 1 + kk[0] * r + kk[1] * r * r
                u = a * g + 2 * kk[2] * a * b + kk[3] * (r + 2 * a * a)
                v = b * g + 2 * kk[3] * a * b + kk[2] * (r + 2 * b * b)
                ops.append('b:%s:%s' % (4 * u + 4, 4 * v + 3))
        out += chunks(cam(0, '4,4,4,3', dist=1, coef=k), ops)
    # Unified projection: points at a whole distance.
    for i in UNIFIED:
        for dist, k in ((0, ''), (1, RADTAN[1]), (1, RADTAN[5])):
            c = cam(1, i, dist=dist, coef=k)
            pts = [q for p in TRIPLES for q in signs(p)]
            if dist:
                xi = F(i.split(',')[0])
                pts = [p for p in pts if p[2] > 0 and max(abs(x) for x in p[:2]) <= p[2]]
            out += chunks(c, [point(p) for p in pts])
            out += chunks(c, [point(p, e) for e in (33, 34, 40) for p in pts[::7]])
            front = [p for p in pts if p[2] > 0]
            out += chunks(c, ['j:%d:%d:%d' % p for p in front])
            xi = F(i.split(',')[0])
            seen = [p for p in pts if p[2] > -1 or xi == 1] if xi else front
            out += chunks(c, ['t:%d:%d:%d' % p for p in seen if p[2] > 0 or not dist])
            out += chunks(c, ['h:%d:%d:%d:%d:0' % ((tuple(-x for x in p) if dist and w < 0 else p) + (w,)) for p in pts[::3] for w in (-1, 2)])
            out += chunks(c, ['x:%d:%d:%d:0:%s:-' % (p + (j,)) for p in pts[::5] for j in ('-', '1/2,2,3,5,1', '0,1,1,4,3', '3,1,1,4,3')])
            out.append(c + ' x:2:2:1:0:1,4,4,3:-')
            out += [c + ' r:%s:20:%d' % (d, s) for s in (1, 2) for d in ('2', '1/2')] if dist == 0 and xi > 0 and xi != 1 else []
        c = cam(1, i)
        out += chunks(c, ['b:%s:%s' % (u, v) for u in ('0', '1', '4', '7/2', '8', '-1', '5') for v in ('0', '3', '5', '6', '-2', '4')])
        for k in FISH[:3]:
            pts = [q for p in ((0, 0, 1), (0, 0, 2), (2, 2, 1)) for q in signs(p)]
            out += chunks(cam(1, '1,4,5,4,3', dist=3, coef=k), [point(p) for p in pts] + ['j:2:2:1', 'j:0:0:1', 'j:2:1:2', 't:2:1:2', 't:2:2:1', 't:0:0:1'])
        for k in EQUI[:6]:
            out += chunks(cam(1, '1,4,5,4,3', dist=2, coef=k), ['p:0:0:1:0', 'p:1:0:0:0', 'p:0:-2:0:0', 'j:1:0:0', 'j:2:2:1', 'j:0:0:2', 't:2:1:2', 't:2:2:1'])
    # Lidars: directions at multiples of 45 degrees.
    dirs = [(x, y, z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1) if not (x and y and z)]
    dirs += [(2 * x, 0, 2 * z) for x in (-1, 0, 1) for z in (-1, 0, 1)] + [(3, 5, 4), (-3, 5, 4), (4, -5, -3), (1, 2, 2), (3, 1, 2), (0, 0, 0)]
    for i, w, h in LIDAR:
        c = cam(2, i, w, h)
        for e in (0, 6, 7, 19, 20, 40):
            out += chunks(c, [point(p, e) for p in dirs if e != 19 or p != (0, 0, 0)])
        out += chunks(c, ['h:%d:%d:%d:%d:0' % (p + (s,)) for p in dirs for s in (-1, 0, 1)])
        out += chunks(c, ['t:%d:%d:%d' % p for p in dirs if any(p)])
        out += [c + ' r:%s:20:%d' % (d, s) for s in (1, 2) for d in ('2', '1/2')]
        for j in ('-', '1/4p,1/8p,1/2p,1/4p', '1/8p,1/4p,1/4p,1/2p', '1/8p,1/4p', '1/8p,1/4p,1/4p,1/2p,1'):
            for oc in ('-', '1'):
                for p in dirs[:26:5] if oc == '-' else dirs[:1]:
                    out.append(c + ' x:%d:%d:%d:0:%s:%s' % (p + (j, oc)))
    # Parameters: valid and not.
    for kind, good in ((0, ['4', '4', '4', '3']), (1, ['1', '4', '4', '4', '3']), (2, ['1/8', '1/8', '1', '1'])):
        for i in range(len(good)):
            for v in ('0', '-1', '1/8', '-1/8'):
                out.append(cam(kind, ','.join(good[:i] + [v] + good[i + 1:])))
        out += [cam(kind, ','.join(good[:-1])), cam(kind, ','.join(good + ['1'])), cam(kind, ','.join(good[:1]))]
    for dist, n in ((1, 4), (2, 4), (3, 1)):
        out += [cam(0, '4,4,4,3', dist=dist, coef=','.join(['1/2'] * k)).replace('q', '') for k in (0, 1, 2, 3, 4, 5)]
    out += [cam(0, '4,4,4,3', dist=3, coef=w) for w in ('0', '1/4', '1/2', '49/100', '151/100', '3/2', '-1', '1', '2', '1/1000')]
    return out


def program(r):
    kind = r.choice([0, 0, 1, 2])
    half = lambda a, b: '%d/2' % r.randint(2 * a, 2 * b)
    if kind == 2:
        i, w, h = r.choice(LIDAR)
        c = cam(2, i, w, h)
        pts = [(x, y, z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1) if (x or y or z) and not (x and y and z)]
        ops = []
        for _ in range(15):
            p = r.choice(pts)
            s = r.randint(1, 4)
            p = tuple(s * x for x in p)
            ops.append(r.choice([point(p, r.choice([0, 0, 0, 6, 7])), 't:%d:%d:%d' % p, 'h:%d:%d:%d:%d:0' % (p + (r.randint(-2, 2),))]))
        return ' '.join([c] + ops)
    dist = r.choice([0, 1, 1, 1, 2, 3]) if kind == 0 else r.choice([0, 0, 1])
    e16 = lambda: '%d/16' % r.choice([-2, -1, 0, 0, 1, 2])
    coef = ['', ','.join(e16() for _ in range(4)), ','.join(e16().replace('16', '64') + u for u in 'rstu'), r.choice(FISH)][dist]
    focal = lambda: half(2, 8) if dist != 3 else str(r.randint(2, 8))
    center = (lambda a: str(r.randint(1, a))) if dist == 3 else (lambda a: half(1, a))
    w, h = r.randint(4, 12), r.randint(4, 12)
    # Distorted, only some calibrations have results with small denominators.
    if kind and dist:
        coef = ','.join([e16(), '0', e16(), e16()])
    intr = ([r.choice(['0', '1'] if dist else ['0', '1', '1/2', '3/2', '2', '3/4'])] if kind else []) + [focal(), focal(), center(w), center(h)]
    c = cam(kind, ','.join(intr), w, h, dist, coef)
    if kind:
        pts = [q for p in TRIPLES for q in signs(p) if not dist or (q[2] > 0 and max(abs(x) for x in q[:2]) <= q[2])]
    elif dist == 2:
        pts = [q for p in UNIT for q in signs(p)]
    elif dist == 3:
        pts = [q for p in FISHY for q in signs(p)]
    else:
        pts = [(r.randint(-4, 4), r.randint(-4, 4), r.choice([-2, -1, 1, 2, 3, 4])) for _ in range(20)]
        if dist:
            pts = [p for p in pts if max(abs(p[0]), abs(p[1])) <= abs(p[2])] + [(1, -1, 2)]
    ops = []
    for _ in range(15):
        p = r.choice(pts)
        front = p[2] > 0
        w = r.randint(-2, 2)
        kinds = [point(p), point(p), 'h:%d:%d:%d:%d:0' % ((tuple(-x for x in p) if kind and dist and w < 0 else p) + (w,))]
        if front:
            kinds += ['j:%d:%d:%d' % p]
            if kind == 0 or dist == 0:
                kinds += ['t:%d:%d:%d' % p] if (1 + (dist == 1)) * max(abs(p[0]), abs(p[1])) <= p[2] else []
        ops.append(r.choice(kinds))
    return ' '.join([c] + ops)


def programs(n, rng):
    return [program(rng) for _ in range(n)]


def run(ctx):
    drv = vlib.build('projection')[0]
    vlib.model(ctx, 'MCProjection', 'MCProjection.cfg', consts={} if ctx.quick else {'Far': '4'}, timeout=800)
    rng = random.Random(ctx.seed)
    for name, p in (('operations', every()), ('cameras', programs(1500 if ctx.quick else 20000, rng))):
        traces, stats = vlib.explore(drv, p, name='pj')
        vlib.judge_suite(ctx, name, 'ProjectionTrace', 'ProjectionTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['points and calibrations are chosen so that the exact result is a fraction with a small denominator (equidistant distortion: angles of 45 degrees; fisheye: tabulated to six digits)']


CHECKS = {'C23': run}
