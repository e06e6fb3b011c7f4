"""C11: frames."""
import random
import vlib

CH = ['unc', 'ori', 'score', 'scale', 'pos', 'toff', 'track']
L = lambda v: ','.join(map(str, v))


class Gen:
    """Client programs that mostly stay within what a frame accepts."""
    def __init__(self, rng):
        self.r, self.k, self.out = rng, 0, []
        self.types = {0: [], 1: [], 2: []}
        self.num = {0: 0, 1: 0, 2: 0}

    def fresh(self, n, c=None):
        v = list(range(self.k + 1, self.k + 1 + n))
        self.k += n
        if c == 'track':
            v = [x if self.r.random() < .55 else -1 for x in v]
        return v

    def bytes(self, n):
        self.k += n
        return [(self.k + i) % 256 for i in range(n)]

    def add(self, *a):
        self.out.append(':'.join(map(str, a)))

    def block(self, f, chans):
        n = self.r.choice([0, 1, 1, 2, 2, 3, 5])
        t = self.r.choice([0, 1, 2, 3, 7, -1]) if self.r.random() < .9 else self.r.choice(self.types[f] or [0])
        self.add('x', f, 'meas', L(self.fresh(n)))
        later = []
        if self.r.random() < .93:
            later.append(lambda: self.add('X', f, t, self.r.choice([1, 4, 9]), L(self.bytes(n)), self.r.randrange(2)))
        for c in chans:
            if self.r.random() < .85:
                later.append(lambda c=c: self.add('x', f, c, L(self.fresh(n, c)), self.r.choice([0, -1, 5, -3])))
        self.r.shuffle(later)
        for x in later:
            x()
        self.types[f].append(t)
        self.num[f] += n

    def whole(self, f, chans):
        n = self.r.choice([0, 1, 2, 3, 4, 6])
        for c in ['meas'] + list(chans):
            self.add(self.r.choice('sw'), f, c, L(self.fresh(n, c)))
        self.add(self.r.choice('SW'), f, 0, self.r.choice([0, 1, 2]), self.r.choice([1, 4, 9]), L(self.bytes(n)), self.r.randrange(2))
        self.num[f] = n

    def look(self, f):
        self.add('i', f)
        for t in set(self.types[f]) | {self.r.choice([0, 5])}:
            self.add('t', f, t)

    def other(self):
        f, g = self.r.randrange(3), self.r.randrange(3)
        c = self.r.choice(CH + ['meas', 'img', 'free'])
        t = self.r.choice(self.types[f] or [0])
        op = self.r.choice('ddmMbkKeeaghzcrnswx' + 'S' * 2)
        if op == 'd':
            self.add('d', f)
        elif op == 'm':
            if self.num[f]:
                self.add('m', f, self.r.choice(['meas', 'track'] if self.r.random() < .8 else CH), self.r.randrange(self.num[f]), self.fresh(1)[0])
        elif op == 'M':
            self.add('M', f, t, 0, self.fresh(1)[0])
        elif op == 'b':
            self.add('g', f, self.r.choice([1, 2, 3]), self.r.randrange(4))
            self.add('b', f, t, L([self.r.randrange(max(1, min(3, self.num[f]))) for _ in range(self.r.choice([0, 1, 2, 3]))]))
        elif op in 'kK':
            if op == 'K' and f == g:
                op = 'k'
            self.add(op, f, g)
            self.types[g], self.num[g] = list(self.types[f]), self.num[f]
            self.add('e', f, g)
        elif op == 'e':
            self.add('e', f, g)
        elif op == 'a':
            self.add('a', f, self.r.choice([0, 5, 2000000000]), self.r.choice([0, 1, 2, 3]), self.r.choice([0, 1, 2]))
        elif op == 'g':
            self.add('g', f, self.r.randrange(4), self.r.randrange(4))
        elif op == 'h':
            self.add('h', f, c)
        elif op == 'z':
            if self.types[f]:
                self.add('z', f, g)
                self.types[g] = list(self.types[f])
                if self.r.random() < .95:
                    self.add('T', g, L(self.types[g]))
        elif op == 'c':
            if self.r.random() < .4:
                self.add('c', f)
                self.num[f] = 0
                self.types[f] = []
        elif op == 'r':
            self.add('s', f, 'img', L(self.bytes(3)))
            if self.r.random() < .5:
                self.add('r', f)
        elif op == 'n':
            self.add('n', f, self.r.choice([0, 7]), self.r.randrange(4))
            self.types[f], self.num[f] = [0], 0
        elif op in 'sw':
            self.add(op, f, c, L(self.fresh(self.num[f] if self.r.random() < .8 else self.r.randrange(4)) if c != 'img' else self.bytes(3)))
        elif op == 'x':
            if c not in ('img', 'free', 'meas'):
                self.add('x', f, c, L(self.fresh(self.r.choice([0, 0, 1]), c)), 4)
        elif op == 'S':
            k = self.r.randrange(max(1, len(self.types[f])))
            self.add(self.r.choice('SW'), f, k, t, 4, L(self.bytes(self.r.randrange(4))))


def programs(n, rng):
    out = []
    for i in range(n):
        g = Gen(rng)
        for f in rng.sample(range(3), rng.choice([1, 1, 2])):
            chans = rng.sample(CH, rng.choice([0, 1, 2, 3, 7]))
            if rng.random() < .6 and 'track' not in chans:
                chans.append('track')
            for _ in range(rng.choice([1, 2, 2, 3, 4])):
                g.block(f, chans) if rng.random() < .85 else g.whole(f, chans)
                if rng.random() < .3:
                    g.look(f)
            if rng.random() < .5:
                g.add('d', f)
                g.look(f)
        for _ in range(rng.randint(0, 8)):
            g.other()
        for f in range(2):
            g.look(f)
        out.append(' '.join(g.out))
    return out


def every(rng):
    """Each operation on each channel, on frames of every small size, and all the ways to discard."""
    out = []
    for c in CH + ['meas']:
        for n in range(4):
            v = L(range(1, n + 1))
            for op in 'sw':
                out.append('s:0:meas:%s %s:0:%s:%s t:0:0 %s:0:%s:%s m:0:%s:%d:77 m:0:%s:%d:77' %
                           (v, op, c, L(range(11, 11 + n)), op, c, L(range(31, 31 + n + 1)), c, n, c, n + 1))
        for have in range(4):
            for more in range(4):
                for n in range(5):
                    out.append('s:0:meas:%s %s x:0:%s:%s:-2 i:0' % (L(range(1, n + 1)), 's:0:%s:%s' % (c, L(range(11, 11 + have))) if have else '', c, L(range(21, 21 + more))))
    for n in range(1, 6):
        for bits in range(2 ** n):
            t = [-1 if bits >> i & 1 else 50 + i for i in range(n)]
            for a in sorted({n, n // 2, n - 1}):
                x = ['s:0:%s:%s' % (c, L(range(10 * k + 1, 10 * k + n + 1))) for k, c in enumerate(['meas'] + CH[:-1])]
                x += ['X:0:1:4:%s' % L(range(100, 100 + a))] + (['X:0:2:9:%s' % L(range(150, 150 + n - a))] if a < n else [])
                out.append(' '.join(x + ['s:0:track:%s' % L(t), 't:0:2', 'd:0', 't:0:1', 't:0:2', 'i:0', 'd:0']))
    for skip in ['meas'] + CH[:-1] + ['desc']:   # channels of another length are refused
        for d in (-1, 1):
            x = ['s:0:%s:1,2,3' % c for c in ['meas'] + CH[:-1] if c != skip] + (['X:0:1:4:1,2,3'] if skip != 'desc' else ['X:0:1:4:1,2', 'X:0:2:4:3,4' if d > 0 else 'T:0:3'])
            x += ['s:0:%s:%s' % (skip, '1,2' if d < 0 else '1,2,3,4')] if skip != 'desc' else []
            out.append(' '.join(x + ['s:0:track:1,-1,3', 'd:0']))
    for nb in range(4):   # clearing, and filling again
        b = ['x:0:meas:%s X:0:%d:4:%s x:0:pos:%s x:0:toff:%s x:0:track:%s' % ((L([2 * i + 1, 2 * i + 2]), i) + (L([2 * i + 1, 2 * i + 2]),) * 4) for i in range(nb)]
        out.append(' '.join(b + ['s:0:img:1,2 s:0:free:4', 'c:0', 'i:0', 't:0:0', 't:0:1', 'x:0:meas:5,6', 'x:0:pos:5,6', 'x:0:track:5,6', 'x:0:score:5,6', 'S:0:0:3:4:5,6', 't:0:3', 'd:0']))
    out += ['s:0:meas:1,2 t:0:0 t:0:1', 't:0:0 i:0', 'X:0:1:4:1,2 t:0:1', 'x:0:meas:1 X:0:1:4:1 X:0:1:4:2,3 x:0:meas:2,3 t:0:1 i:0',
            'S:0:2:1:4:1 i:0', 'W:0:0:1:4:1,2 W:0:0:2:9:5 W:0:1:2:9:5', 'z:0:1', 'x:0:meas:1,2 X:0:3:4:1,2 z:0:1 i:1 T:1:3 t:1:3 e:0:1 X:1:4:1:9 t:1:4',
            'X:0:3:4:1,2 X:0:4:9:3 z:0:1 T:1:3 ', 'X:0:3:4:1,2 z:0:1 S:1:0:1:4:5', 'X:0:3:4:1,2 X:1:1:1:1 X:1:2:1:2 z:0:1 T:1:3 i:1']
    for ks in ['', '0', '1', '2', '0,2', '2,1,0', '3', '0,4', '1,1']:
        out.append('g:0:1:2 x:0:meas:11,12 X:0:1:4:1,2 x:0:meas:13,14,15 X:0:2:4:3,4,5 x:0:meas:16 X:0:3:4:6 b:0:2:%s b:0:1:%s' % (ks, ks))
        out.append('x:0:meas:11,12,13 X:0:2:4:1,2,3 b:0:2:%s' % ks)
    out.append('g:0:1:2 b:0:1: b:0:1:0')
    # equality: frames that differ in one respect
    base = 'a:%d:5:1:1 g:%d:1:2 x:%d:meas:1,2 X:%d:1:4:1,2 x:%d:score:3,4 s:%d:img:1,2'.replace('%d', '0')
    for d in ['a:1:6:1:1', 'a:1:5:0:1', 'a:1:5:1:2', 'g:1:2:2', 'g:1:3:2', 'g:1:0:2', 'g:1:1:1', 'm:1:meas:1:7', 'm:1:score:0:7', 's:1:img:1,3', 'T:1:2', 'S:1:0:1:4:1,3',
              'S:1:0:1:9:1,2', 'S:1:0:2:4:1,2', 'X:1:1:4:', 's:1:ori:', 's:1:free:1', 'r:1', 's:1:meas:1,2,3', 'k:1:1', 'd:1', 'c:1']:
        for how in ('k:0:1', 'K:0:1'):
            out.append(' '.join([base, how, 'e:0:1', d, 'e:0:1', 'e:1:0', 'i:0', 't:0:1']))
    return out


def run(ctx):
    drv = vlib.build('frames')[0]
    vlib.model(ctx, 'MCFrames', 'MCFrames.cfg', consts={} if ctx.quick else {'MaxKeypoints': '3'}, timeout=600)
    vlib.model(ctx, 'MCFrames', 'MCFrames.cfg', consts={'Frame': '{0}', 'MaxKeypoints': '5', 'MaxBlocks': '3'})
    rng = random.Random(ctx.seed)
    for name, p in (('operations', every(rng)), ('histories', programs(700 if ctx.quick else 9000, rng))):
        traces, stats = vlib.explore(drv, p, name='fr')
        vlib.judge_suite(ctx, name, 'FramesTrace', 'FramesTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['arguments are not references into the frame itself',
                        'after descriptors were read from a string their types are set before they are used',
                        'frame locks and images shared between copies of a frame are outside the property']


CHECKS = {'C11': run}
