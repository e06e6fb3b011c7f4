"""C17: track identifiers."""
import itertools
import random
import vlib

L = lambda v: ','.join(map(str, v))


class Gen:
    """A plausible world: what channels there are, what identifiers."""
    def __init__(self, rng):
        self.r, self.out = rng, []
        self.n, self.t, self.full = [0] * 3, [None] * 3, [0] * 3
        self.hint, self.prov = 0, set()

    def add(self, *a):
        self.out.append(':'.join(map(str, a)))

    def frame(self, f):
        r = self.r
        n = r.choice([0, 1, 2, 3, 3, 4, 6])
        codes = r.sample(range(40), n)
        has = r.random() < .5
        ids = r.sample(range(-1, 12), n) if r.random() < .5 else [r.choice([-1, -1, -1, -5, 0, 1, 2, 3]) for _ in range(n)]
        if r.random() < .3:
            self.add('e', f)
            k = r.choice([0, 1, 3])
            self.add('i', f, L(r.sample(range(40), k)), r.choice([1, 3]))
            self.n[f], self.t[f], self.full[f] = k, [-1] * k, 1
            return
        self.add('n', f, L(codes), L(ids) if has else '-')
        self.n[f], self.t[f], self.full[f] = n, ids if has else None, 0

    def apply(self, f, g):
        r = self.r
        a, b = [x if x is not None else [-1] * n for x, n in ((self.t[f], self.n[f]), (self.t[g], self.n[g]))]
        pairs = list(zip(r.sample(range(len(a)), min(len(a), len(b))), r.sample(range(len(b)), min(len(a), len(b)))))
        pairs = [p for p in pairs if r.random() < .8]
        if r.random() < .9:
            pairs = [(i, k) for i, k in pairs if a[i] < 0 or b[k] < 0 or a[i] == b[k]]
        a, b = a[:], b[:]
        for i, k in pairs:
            v = a[i] if a[i] >= 0 else b[k] if b[k] >= 0 else self.hint
            self.hint += v == self.hint and a[i] < 0 and b[k] < 0
            a[i] = b[k] = v
        self.t[f], self.t[g] = a, b
        if r.random() < .04:
            pairs.append(r.choice([(0, 0), (-1, 0), (0, -1), (len(a), 0), (0, len(b)), (len(a) - 1, len(b) - 1)]))
        self.add('a', f, g, L('%d-%d' % p for p in pairs), r.randrange(2))

    def step(self):
        r = self.r
        op = r.choice('nnaaaaaaacxxirpPPPQ')
        f = r.randrange(3)
        if op == 'n':
            self.frame(f)
        elif op == 'a':
            self.apply(f, r.choice([g for g in range(3) if g != f]))
        elif op == 'c':
            self.add('c', f)
            self.t[f] = self.t[f] if self.t[f] is not None else [-1] * self.n[f]
        elif op == 'x' and self.full[f] and self.t[f] is not None:
            k = r.choice([0, 1, 2])
            self.add('x', f, L(r.sample(range(40), k)), r.choice([1, 2]))
            self.n[f] += k
            self.t[f] = self.t[f] + [-1] * k
        elif op == 'r':
            self.add('r')
            self.hint = 0
        elif op == 'p':
            k = r.randrange(2)
            self.add('p', k, r.choice([0, 0, 3]))
            self.prov.add(k)
        elif op in 'PQ' and self.prov:
            self.add(op, r.choice(sorted(self.prov)))


def programs(n, rng):
    out = []
    for _ in range(n):
        g = Gen(rng)
        for f in range(3):
            g.frame(f)
        for _ in range(rng.randint(2, 14)):
            g.step()
        if rng.random() < .15:
            g.add(*rng.choice([('x', 0, '1,2', 1), ('i', 0, '1', 1), ('x', 1, '1', 0), ('x', 1, '1', 1, 2)]))
        out.append(' '.join(g.out))
    return out


def every():
    out = []
    # Every pair of identifiers for one match, beside another match; every list of up to two matches of two by two keypoints.
    for a, b in itertools.product([-2, -1, 0, 1, 7], repeat=2):
        out.append('n:0:1,2:%d,-1 n:1:3,4:-1,%d a:0:1:0-1:0 a:0:1:1-0:1' % (a, b))
        out.append('n:0:1,2:%d,-1 n:1:3,4:%d,5 a:0:1:0-0,1-1:0 a:0:1:0-0:1' % (a, b))
    ms = ['%d-%d' % p for p in itertools.product(range(-1, 3), repeat=2)]
    for x in [[]] + [[m] for m in ms] + [list(m) for m in itertools.product(ms, repeat=2)]:
        for t in ('-', '-1,-1'):
            out.append('n:0:1,2:%s n:1:3,4:%s a:0:1:%s:0 a:0:1:%s:1' % (t, '-', L(x), L(x)))
    # Channels of other lengths, frames without keypoints or anything.
    for n, k in itertools.product(range(3), repeat=2):
        for m in ('0-0', '1-0', '2-0', '0-1'):
            out.append('n:0:%s:%s n:1:1,2:- a:0:1:%s:0 c:0 c:1' % (L(range(n)), L([-1] * k), m))
    out += ['n:0:1,2:- c:0 c:0 n:1:1,2:4,5 c:1 c:1', 'n:0:: c:0 a:0:1::0', 'n:0:1:- n:1:2:- a:0:1:0-0:0 r a:0:1:0-0:0 n:2:3:- a:1:2:0-0:1 n:0:3:- a:0:1:0-0:1 n:0:5:- n:1:6:- a:0:1:0-0:0']
    # Tracks over three frames in all orders of matching.
    for order in itertools.permutations(['a:0:1:0-0,1-1:0', 'a:1:2:0-1,1-0:1', 'a:0:2:0-1:0', 'r']):
        out.append('n:0:1,2:- n:1:3,4:- n:2:5,6:- ' + ' '.join(order))
        out.append('n:0:1,2:- n:1:3,4:- n:2:5,6:- ' + ' '.join(order).replace('0:1:0-0,1-1', '1:0:0-0,1-1'))
    # Many tracks.
    out.append(' '.join('n:%d:%s:%s' % (f, L(range(60)), '-') for f in range(2)) + ' a:0:1:%s:0' % L('%d-%d' % (i, 59 - i) for i in range(60)) + ' n:2:%s:- a:1:2:%s:1 c:2' % (L(range(70)), L('%d-%d' % (i, i + 9) for i in range(60))))
    for first in (0, 1, 9):
        out.append('p:0:%d P:0 P:0 P:0 Q:0 P:0 P:0 p:1:4 P:1 P:0 Q:1 P:1 P:0 p:0:2 P:0' % first)
    # Detected keypoints: insertion and appending, in every acceptable and refused form.
    for codes in ((), (3,), (3, 4, 5)):
        for unc in (-1, 0, 1, 4):
            for rows in ('', 0, 1, 3, 4):
                for t in (0, 1):
                    out.append('e:0 i:0:%s:%d:%s:%d c:0 i:0:%s:1' % (L(codes), unc, rows, t, L(codes)))
                    out.append('e:0 i:0:8,9:2 x:0:%s:%d:%s:%d c:0' % (L(codes), unc, rows, t))
    for pre in ('e:0', 'n:0::-', 'n:0::', 'n:0:1:-', 'n:0:1:-1', 'n:0::3', 'e:0 c:0', 'n:0::- i:0::1', 'n:0:1,2:- c:0', 'e:0 i:0:1:1'):
        for op in ('i:0:5,6:3', 'i:0::1', 'x:0:5,6:3', 'x:0::1'):
            out.append(pre + ' ' + op + ' x:0:7:2 c:0')
    out.append('e:0 i:0:1,2,3:2 e:1 i:1:4,5:2 a:0:1:0-1,2-0:0 x:0:6,7:3 x:1:8:1 a:0:1:3-2:1 x:0:9:3 e:2 i:2:6,7:1 a:1:2:2-0,1-1:0')
    return out


def run(ctx):
    drv, mt = vlib.build('tracks', 'tracks_mt')
    vlib.model(ctx, 'MCTracks', 'MCTracks.cfg', timeout=800)
    if not ctx.quick:
        vlib.model(ctx, 'MCTracks', 'MCTracks.cfg', consts={'Tracker': '{0}', 'Points': '3', 'Length': '4'}, timeout=800)
    rng = random.Random(ctx.seed)
    for name, p in (('operations', every()), ('histories', programs(1500 if ctx.quick else 20000, rng))):
        traces, stats = vlib.explore(drv, p, name='tr')
        vlib.judge_suite(ctx, name, 'TracksTrace', 'TracksTrace.cfg', traces, stats, driver=drv)
    p = ['1 1', '2 2', '1 1 1', '3 1', '12 21', 'pp pp', 'p p p', '1p p1', '2 3 1'] + ([] if ctx.quick else ['33 33', '1 2 p', '111 111', 'p1p 1p1'])
    traces, stats = vlib.explore(mt, p, scale=1 if ctx.quick else 6, name='trm', args=['400'])
    vlib.judge_suite(ctx, 'threads', 'TracksTrace', 'TracksTrace.cfg', traces, stats, driver=mt)
    ctx.assumptions += ['both frames of a match list are different objects; channels of a frame that is appended to have one entry per keypoint']


CHECKS = {'C17': run}
