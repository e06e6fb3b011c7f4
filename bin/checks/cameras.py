"""C24: cameras as objects."""
import random
import vlib

L = lambda v: ','.join(map(str, v))
REFUSED = ['notype', 'badtype', 'nowidth', 'noheight', 'badheight', 'nointr', 'badintr', 'shortintr', 'longintr', 'zerointr', 'textdist',
           'distnotype', 'distbadtype', 'distnoparams', 'distshort', 'distlong', 'distfar']
FINE = ['', 'extra', 'nodelay', 'baddelay', 'badcomp', 'nodist', 'nulldist', 'distnone', 'distfish', 'distradtan', 'distequi', 'notopic', 'noid']
INTR = [[8, 16, 24, 9], [0, 8, 16, 24, 9], [1, 2, 4, 2]]
COEF = [[], [1, -2, 3, 4], [1, 2, 0, -1], [8]]
DELAYS = [(0, 0), (0, 1), (0, 999999), (1, 0), (123, 456789), (4294, 967296), (5000000, 7), (0, 30000)]


def new(s=0, kind=0, w=4, h=3, dist=0, how=0, intr=None, coef=None, id=1):
    return 'n:%d:%d:%s:%d:%d:%d:%s:%d:%d' % (s, kind, L(INTR[kind] if intr is None else intr), w, h, dist, L(COEF[dist] if coef is None else coef), id, how)


def questions(s, w, h, margins=(0, 2, 4, 7)):
    return ['q:%d:%d:%d:%d' % (s, x, y, m) for x in (-5, -1, 0, 3, 4, 4 * w - 1, 4 * w, 4 * w + 9) for y in (-8, -1, 0, 5, 4 * h - 1, 4 * h) for m in margins]


def every():
    out = []
    add = lambda *ops: out.append(' '.join(ops))
    for kind in range(3):
        for dist in range(4):
            for how in range(4):
                add(new(0, kind, dist=dist, how=how), 'c:0:1', 'e:0:1')
        good = INTR[kind]
        for how in (0, 1, 2, 3):
            for i in range(len(good)):
                for v in (0, -1):
                    add(new(0, kind, intr=good[:i] + [v] + good[i + 1:], how=how))
            if how != 1:
                for intr in ([], good[:-1], good + [8]):
                    add(new(0, kind, intr=intr, how=how))
            for dist in (1, 2, 3):
                for coef in ([], [1], [8], [0], [3], [4], [12], [13], [-8], [1, 2], [1, 2, 3], [1, 2, 3, 4], [1, 2, 3, 4, 5]):
                    add(new(0, kind, dist=dist, coef=coef, how=how))
            add(new(0, kind, id=0, how=how))
            add(new(0, kind, dist=1, id=0, how=how))
        for t in DELAYS:
            for w, h in ((4, 3), (1, 1), (7, 2)):
                qs = questions(0, w, h, (0,))
                add(new(0, kind, w, h), 'a:0:delay:%d:%d' % t, *qs)
        for w, h in ((4, 3), (3, 4), (1, 1), (2, 5)):
            for bits in ('1', '0', '01', '2', '011', '10020'):
                add(new(0, kind, w, h), 'm:0:%d:%d:0:%s' % (w, h, bits), *questions(0, w, h))
            for dw, dh in ((0, 1), (1, 0), (0, -1), (-1, 0), (h - w, w - h)):
                if dw or dh:
                    add(new(0, kind, w, h), 'm:0:%d:%d:0:1' % (w + dw, h + dh))
            for t in (1, 2, 3):
                add(new(0, kind, w, h), 'm:0:%d:%d:%d:1' % (w, h, t))
        full = [new(0, kind, dist=1), 'a:0:delay:123:456789', 'a:0:comp:1', 'a:0:topic:2', 'a:0:desc:3', 'm:0:4:3:0:01']
        changes = ['a:0:w:5', 'a:0:h:2', 'a:0:delay:123:456788', 'a:0:delay:122:456789', 'a:0:comp:0', 'a:0:topic:1', 'a:0:desc:1', 'a:0:id:7', 'P:0:0:9', 'P:0:1:17', 'P:0:2:25', 'P:0:3:10',
                   'P:0:4:10', 'Q:0:0:2', 'Q:0:1:2', 'Q:0:2:2', 'Q:0:3:2', 'x:0', 'd:0:2:1,-2,3,4', 'd:0:3:8', 'd:0:1:1,-2,3,5', 'd:0:1:1,-2,3,4', 'D:0:1,-2,3,9', 'M:0:1:1:0', 'M:0:1:1:1',
                   'k:0', 'p:0:' + L([9] * len(good)), 'p:0:' + L(good)]
        for c in changes:
            add(*full, 'c:0:1', 'e:0:1', c, 'e:0:1', 'e:1:0', 'c:0:2', 'e:0:2')
            add(*full, 'c:0:1', c.replace(':0:', ':1:', 1) if c.count(':') > 1 else c[:-1] + '1', 'e:0:1', *questions(0, 4, 3, (0,))[:9])
        for bad in ('p:0:1', 'p:0:' + L(good[:-1]), 'p:0:' + L(good + [1]), 'D:0:1,2,3', 'D:0:1,2,3,4,5', 'd:0:1:1', 'd:0:2:1,2,3', 'd:0:3:2', 'd:0:3:1,2'):
            add(*full, bad)
        add(*full, 'P:0:1:0', 'P:0:1:-8', 'P:0:1:8', 'P:0:0:0', 'P:0:0:-8')
        for how in range(4):
            for e in FINE + REFUSED:
                other = new(1, kind, 2, 2, dist=2, id=5)
                add(*full, other, 'a:1:topic:9', 'a:1:comp:1', 'a:1:delay:1:1', 'm:1:2:2:0:1', 'y:0:1:%d:%s' % (how, e), 'e:0:1', 'e:1:0')
                add(new(0, kind), new(1, kind, dist=3), 'y:0:1:%d:%s' % (how, e), 'e:0:1')
        for e in ('null', 'text', 'list', 'nocomp'):
            add(*full, 'y:0:1:0:' + e)
        add(new(0, kind), 'r:0')
        add(new(0, kind), 'c:0:1', 'r:0', 'e:1:1')
        for other in range(3):
            add(new(0, kind), new(1, other), 'e:0:1', 'e:1:0')
    return out


def program(r):
    out, cams = [], [None] * 3

    def make(s):
        kind, w, h, dist = r.randrange(3), r.randint(1, 6), r.randint(1, 6), r.choice([0, 0, 1, 1, 2, 3])
        out.append(new(s, kind, w, h, dist, r.choice([0, 1, 2, 3]) if kind < 2 else 0, id=r.randint(1, 4)))
        cams[s] = dict(kind=kind, w=w, h=h, dist=dist, mask=False)
    make(0)
    for _ in range(r.randint(4, 18)):
        on = [s for s in range(3) if cams[s]]
        s, g = r.choice(on), r.randrange(3)
        c = cams[s]
        op = r.choice('nccaaaaaeepPPdDQxmmMkqqqqqyyyyr')
        if op == 'n':
            make(g)
        elif op == 'c':
            out.append('c:%d:%d' % (s, g))
            cams[g] = dict(c)
        elif op == 'a':
            f = r.choice(['w', 'h', 'delay', 'delay', 'delay', 'comp', 'id', 'topic', 'desc'])
            if f in 'wh':
                if c['mask']:
                    continue
                c[f] = r.randint(1, 6)
                v = c[f]
            else:
                v = '%d:%d' % r.choice(DELAYS) if f == 'delay' else r.randint(0, 1) if f == 'comp' else r.randint(1, 4)
            out.append('a:%d:%s:%s' % (s, f, v))
        elif op == 'e':
            out.append('e:%d:%d' % (s, r.choice(on)))
        elif op == 'p':
            out.append('p:%d:%s' % (s, L(r.randint(1, 9) for _ in INTR[c['kind']])))
        elif op == 'P':
            out.append('P:%d:%d:%d' % (s, r.randrange(5), r.choice([1, 1, 2, 9, 0, -1]) if r.random() < .3 else r.randint(1, 9)))
        elif op == 'd':
            c['dist'] = r.randrange(4)
            out.append('d:%d:%d:%s' % (s, c['dist'], L(COEF[c['dist']])))
        elif op == 'D' and c['dist']:
            out.append('D:%d:%s' % (s, L([r.randint(4, 12)] if c['dist'] == 3 else [r.randint(-4, 4) for _ in range(4)])))
        elif op == 'Q' and c['dist']:
            out.append('Q:%d:%d:%d' % (s, r.randrange(4) if c['dist'] < 3 else 0, r.randint(4, 12)))
        elif op == 'x':
            out.append('x:%d' % s)
            c['dist'] = 0
        elif op == 'm':
            out.append('m:%d:%d:%d:0:%s' % (s, c['w'], c['h'], ''.join(r.choice('0112') for _ in range(r.randint(1, 20)))))
            c['mask'] = True
        elif op == 'M':
            out.append('M:%d:%d:%d:%d' % (s, r.randrange(c['w']), r.randrange(c['h']), r.choice([0, 1, 255])))
        elif op == 'k':
            out.append('k:%d' % s)
            c['mask'] = False
        elif op == 'q':
            out.append('q:%d:%d:%d:%d' % (s, r.randint(-9, 4 * c['w'] + 9), r.randint(-9, 4 * c['h'] + 9), r.choice([0, 0, 1, 2, 4, 6, 8, -4])))
        elif op == 'y':
            how = r.randrange(4)
            e = r.choice(FINE + [''] * 6 + ['noid'] * 2)
            if how % 2 and (not cams[g] or cams[g]['kind'] != c['kind']):
                continue
            # A mask stays although the size of the image does not.
            if how % 2 and cams[g]['mask'] and (cams[g]['w'], cams[g]['h']) != (c['w'], c['h']):
                out.append('k:%d' % g)
                cams[g]['mask'] = False
            # The document has to be one of a valid camera.
            out.append('p:%d:%s' % (s, L(INTR[c['kind']])))
            if c['dist'] == 3:
                out.append('D:%d:8' % s)
            out.append('y:%d:%d:%d:%s' % (s, g, how, e))
            d = c['dist'] if e in ('', 'extra', 'nodelay', 'baddelay', 'badcomp', 'notopic', 'noid') else {'distfish': 3, 'distradtan': 1, 'distequi': 2}.get(e, 0)
            cams[g] = dict(c, dist=d, mask=how % 2 == 1 and cams[g]['mask'])
            out.append('e:%d:%d' % (s, g))
        elif op == 'r' and len(on) > 1 and r.random() < .2:
            out.append('r:%d' % s)
            cams[s] = None
    return ' '.join(out)


def programs(n, rng):
    return [program(rng) for _ in range(n)]


def run(ctx):
    drv = vlib.build('cameras')[0]
    vlib.model(ctx, 'MCCameraObjects', 'MCCameraObjects.cfg', consts={} if ctx.quick else {'MaxSteps': '4'}, timeout=800)
    rng = random.Random(ctx.seed)
    for name, p in (('operations', every()), ('histories', programs(1500 if ctx.quick else 20000, rng))):
        traces, stats = vlib.explore(drv, p, name='co')
        vlib.judge_suite(ctx, name, 'CameraObjectsTrace', 'CameraObjectsTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['the size of an image is not changed while it has a mask; documents are read by a camera of the kind they describe; calibrations are multiples of an eighth']


CHECKS = {'C24': run}
