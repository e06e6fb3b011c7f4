"""C20: camera rigs."""
import random
import vlib

L = lambda v: ','.join(map(str, v))
FIELDS = ['delay', 'comp', 'mask', 'topic', 'desc', 'par', 'dist']


class Gen:
    def __init__(self, rng):
        self.r, self.out, self.cams, self.n = rng, [], [], [None, None, None]

    def add(self, *a):
        self.out.append(':'.join(map(str, a)))

    def camera(self, id=None):
        r = self.r
        self.add('c', r.choice([0, 0, 1, 2]), r.choice([0, 0, 1, 2, 3, 4]), r.choice([0, 0, 0, 1, 2]), r.choice([0, 1, 1, 2, 3, 4, 5, 6]), id or r.randint(1, 6))
        self.cams.append(0)
        return len(self.cams)

    def build(self, s):
        r = self.r
        n = r.choice([0, 1, 2, 2, 3, 3, 4])
        if r.random() < .75:
            cams = [self.camera(i) for i in r.sample(range(1, 7), n)]
        else:
            cams = [r.randint(1, len(self.cams)) if self.cams and r.random() < .5 else self.camera() for _ in range(n)]
        self.add('n', s, r.randint(1, 4), L(cams), L(r.choices(range(20), k=n)), r.choice([0, 0, 1, 2]))
        self.n[s] = n

    def step(self):
        r = self.r
        on = [s for s in range(3) if self.n[s] is not None]
        s, g = r.choice(on), r.randrange(3)
        n = self.n[s]
        op = r.choice('cCCCsssstTUkkkkeeeevwyyY' + 'DGRRn')
        if op == 'c':
            self.camera()
        elif op == 'C' and self.cams:
            f = r.choice(FIELDS)
            self.add('C', r.randint(1, len(self.cams)), f, r.choice({'comp': [0, 1], 'par': range(5), 'dist': range(7)}.get(f, [0, 1, 2])))
        elif op == 's' and n:
            self.add('s', s, r.randrange(n), r.randint(1, len(self.cams)) if self.cams and r.random() < .6 else self.camera())
        elif op in 'tT' and n:
            self.add(op, s, r.randrange(n), r.randrange(20))
        elif op == 'k':
            self.add('k', s, g, r.choice([0, 1, 2, 3, 4, 4, 5, 5]))
            self.n[g] = n
            self.cams += [0] * n
            if r.random() < .5:
                self.add('e', s, g)
        elif op == 'e':
            self.add('e', s, r.choice(on))
        elif op == 'v':
            self.add('v', s, r.choice([1, 2]))
        elif op == 'w':
            f = r.choice(['id', 'topic', 'desc'])
            self.add('w', s, f, r.randint(1, 4))
        elif op == 'y':
            g = r.choice(on)
            self.add('y', s, g, r.randrange(4))
            if n:
                self.n[g] = n
                self.cams += [0] * n
            self.add('e', s, g)
        elif op == 'Y':
            self.add('Y', s, r.randrange(13))
        elif op == 'D' and r.random() < .3:
            self.add('D', g)
            self.n[g] = 0
        elif op == 'G' and r.random() < .4:
            k = r.choice([0, 0, 1])
            n = r.choice([0, 1, 2, 3, 5]) if k == 0 else 4
            self.add('G', g, n, k)
            self.n[g] = n
            self.cams += [0] * n
        elif op == 'n':
            self.build(g)


def programs(n, rng):
    out = []
    for _ in range(n):
        g = Gen(rng)
        g.build(0)
        for _ in range(rng.randint(3, 14)):
            g.step()
        s = next(s for s in (0, 1, 2) if g.n[s] is not None)
        k = rng.random()
        if k < .1:
            g.add('R', s)
        elif k < .4:   # one that may be refused
            g.add(*rng.choice([('s', s, g.n[s], 1), ('s', s, 0, 0), ('t', s, g.n[s], 3), ('T', s, g.n[s], 3), ('U', s, rng.randrange(7), 3), ('w', s, 'id', 0)]
                              if g.cams else [('t', s, 7, 3)]))
        else:
            g.add('x', s, rng.randrange(5))
            g.add('q', s, 0)
        out.append(' '.join(g.out))
    return out


def every():
    two = 'c:0:0:0:1:1 c:1:0:0:5:2 n:0:1:1,2:6,11:0 '
    out = ['n:0:%d:%s:%s:%d x:0:0 x:0:1 x:0:2 q:0:0 q:0:1 q:0:5' % (i, c, t, v) if not pre else pre + 'n:0:%d:%s:%s:%d x:0:0 x:0:1 x:0:2 q:0:0 q:0:1 q:0:5' % (i, c, t, v)
           for pre in ('c:0:0:0:1:1 c:1:0:0:5:2 c:2:0:0:0:2 ',) for i in (0, 1) for v in (0, 2)
           for c, t in (('', ''), ('', '1'), ('1', ''), ('1', '1'), ('1,2', '1,2'), ('2,1', '1,2'), ('1,0', '1,2'), ('1,2', '1'), ('1', '1,2'), ('1,1', '3,4'), ('2,3', '3,4'), ('1,2,3', '1,2,3'))]
    for o in range(0, 4):
        for i in range(3):
            out.append(two + 'c:0:0:0:0:3 s:0:%d:%d q:0:0' % (i, o))
            for o2 in range(1, 4):
                for i2 in range(2):
                    out.append(two + 'c:0:0:0:0:3 s:0:%d:%d s:0:%d:%d s:0:%d:3' % (i, o, i2, o2, i))
    for how in range(6):
        # A copy and its original are changed in turn.
        for r in (0, 1):
            for f, v in [('delay', 3), ('comp', 1), ('mask', 7), ('topic', 1), ('desc', 1), ('par', 1), ('dist', 2), ('dist', 6), ('dist', 0), ('dist', 4)]:
                for o in (1, 2, 3, 4):
                    out.append(two + 'C:1:mask:3 C:1:topic:2 w:0:topic:1 w:0:desc:2 k:0:1:%d e:0:1 C:%d:%s:%d e:0:1 e:1:0' % (how, o, f, v))
            out.append(two + 'k:0:1:%d t:%d:0:9 e:0:1 s:%d:1:1 e:0:1 v:%d:2 w:%d:id:3 e:0:1' % (how, r, r, r, r))
            out.append(two + 'v:0:2 k:0:1:%d k:1:2:%d e:0:2 v:%d:1 e:1:2 R:%d' % (how, how, r, r))
        out.append('D:0 k:0:1:%d e:0:1' % how)
        out.append('c:0:0:0:1:1 n:0:1:1,1:1,2:0 k:0:1:%d e:0:1' % how)
        out.append('G:0:3:0 k:0:1:%d e:0:1 G:1:0:1 e:0:1 k:1:2:%d e:1:2' % (how, how))
    # Extrinsics that differ in one entry by any sign; cameras that differ in one respect.
    for a in range(20):
        for b in range(20):
            out.append('c:0:0:0:1:1 c:0:0:0:1:2 n:0:1:1,2:3,%d:0 n:1:1:1,2:3,%d:0 e:0:1 e:1:0' % (a, b))
            if a < 10 and b < 10:
                out.append('c:0:0:0:1:1 c:0:0:0:1:2 n:0:1:1,2:%d,0:0 n:1:1:1,2:%d,0:1 e:0:1' % (a, b))
    kinds = [(k, p, w, d, i) for k in range(3) for p in range(6) for w in range(3) for d in (0, 1, 2, 3, 4, 5, 6) for i in (1, 2) if (p > 0) + (w > 0) + (d != 1) + (i > 1) <= 1]
    for x in kinds:
        y = (0, 0, 0, 1, 1)
        for z in {y, (x[0],) + y[1:]}:
            out.append('c:%d:%d:%d:%d:%d c:%d:%d:%d:%d:%d c:0:0:0:0:3 n:0:1:3,1:0,1:0 n:1:1:3,2:0,1:0 e:0:1 e:1:0 y:0:1:%d e:0:1 y:1:0:1 e:0:1' % (x + z + (sum(x) % 3,)))
    for how in range(3):
        for prep in ('n:1:2:1:3:2', 'D:1', 'k:0:1:0', 'n:1:2:2,1:3,4:0', ''):
            s = 1 if prep else 0
            out.append(two + 'C:1:delay:7 C:2:comp:1 C:1:mask:4 C:2:topic:1 C:1:desc:2 w:0:topic:2 %s y:0:%d:%d e:0:%d y:0:%d:%d e:0:%d q:%d:0' % (prep, s, how, s, s, how, s, s))
            out.append(two + 'v:0:2 %s y:0:%d:%d e:0:%d' % (prep, s, how, s))
        out.append(two + 'D:1 y:1:0:%d' % how)
    for k in range(13):
        out += [two + 'Y:0:%d q:0:1' % k, 'D:0 Y:0:%d' % k, two + 'v:0:1 Y:0:%d y:0:0:0' % k]
    out += [two + 'w:0:%s:%d e:0:0' % x for x in (('id', 0), ('id', 5), ('topic', 1), ('desc', 3))]
    out += [two + 'U:0:%d:9' % i for i in range(4)] + [two + '%s:0:%d:9' % (o, i) for o in 'tT' for i in range(3)]
    out += ['D:0 R:0 R:0', 'D:0 D:1 e:0:1', 'G:0:0:0 x:0:0 e:0:0', two + 'R:0 k:0:1:5 e:0:1', 'c:0:0:0:1:1 n:0:1:1,1:1,2:0 U:0:1:5 U:0:1:7 s:0:0:1 c:0:0:0:0:2 s:0:0:2 s:0:1:2']
    return out


def run(ctx):
    drv = vlib.build('rigs')[0]
    vlib.model(ctx, 'MCRigs', 'MCRigs.cfg', consts={} if ctx.quick else {'MaxObjects': '4', 'MaxSteps': '8'}, timeout=800)
    rng = random.Random(ctx.seed)
    for name, p in (('operations', every()), ('histories', programs(900 if ctx.quick else 12000, rng))):
        traces, stats = vlib.explore(drv, p, name='rig')
        vlib.judge_suite(ctx, name, 'RigsTrace', 'RigsTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['identifiers of cameras are not changed while a rig holds them', 'stand-in for the minkindr transformation library']


CHECKS = {'C20': run}
