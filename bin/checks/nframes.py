"""C12: multi-camera frames."""
import random
import vlib

RIGS = {1: [1, 2], 2: [3, 4], 3: [1, 5], 4: [1], 5: [1, 2, 5], 6: []}
FIELDS = {'time': range(9), 'valid': (0, 1), 'id': (1, 2), 'ch': (1, 2, 3), 'img': (1, 2), 'kp': (0, 1, 2, 3)}


class Gen:
    def __init__(self, rng):
        self.r, self.out, self.frames = rng, [], []
        self.n = [None] * 3   # number of slots, rig

    def add(self, *a):
        self.out.append(':'.join(map(str, a)))

    def frame(self, cam=None):
        cam = self.r.randrange(6) if cam is None else cam
        self.add('f', cam, self.r.choice([0, 2, 3, 4, 5, 6, 7, 8]))
        self.frames.append(cam)
        return len(self.frames)

    def build(self, n):
        r = self.r
        k = r.random()
        rig = r.choice([1, 1, 1, 2, 3, 4, 5, 6])
        if k < .35:
            m = r.choice([0, 1, 2, 2, 2, 3])
            self.add('N', n, r.randint(1, 3), m)
            self.n[n] = [m, 0, [0] * m]
            return
        m = len(RIGS[rig])
        if k < .75:
            self.add('A', n, r.randint(1, 3), rig)
        elif k < .85:
            self.add('B', n, rig)
        else:
            self.add('Z', n, rig, r.randrange(1, 9))
            self.n[n] = [m, rig, list(range(len(self.frames) + 1, len(self.frames) + 1 + m))]
            self.frames += RIGS[rig]
            return
        self.n[n] = [m, rig, [0] * m]

    def fill(self, n, p=.7):
        m, rig, s = self.n[n]
        for i in self.r.sample(range(m), m):
            if self.r.random() < p:
                cam = RIGS[rig][i] if rig else self.r.randrange(6)
                have = [o + 1 for o, c in enumerate(self.frames) if c == cam]
                o = self.r.choice(have) if have and self.r.random() < .4 else self.frame(cam)
                self.add('s', n, i, o)
                s[i] = o

    def step(self):
        r = self.r
        on = [n for n in range(3) if self.n[n]]
        n, g = r.choice(on), r.randrange(3)
        m, rig, s = self.n[n]
        op = r.choice('NfFFFWWsssuuukkkKKKISeeeemmrcxxb')
        if op == 'N':
            self.build(g)
            self.fill(g)
        elif op == 'f':
            self.frame()
        elif op == 'F' and self.frames:
            f = r.choice(list(FIELDS))
            self.add('F', r.randint(1, len(self.frames)), f, r.choice(FIELDS[f]))
        elif op == 'W':
            at = [i for i in range(m) if s[i]]
            if at:
                f = r.choice(list(FIELDS))
                self.add('W', n, r.choice(at), f, r.choice(FIELDS[f]))
        elif op == 's':
            self.fill(n, .3)
        elif op == 'u' and m:
            i = r.randrange(m)
            self.add('u', n, i)
            s[i] = 0
        elif op in 'kK':
            op = 'k' if n == g else 'K' if not self.n[g] else op
            self.add(op, n, g)
            if n != g:
                t = []
                for o in s:
                    if o:
                        self.frames.append(self.frames[o - 1])
                    t.append(len(self.frames) if o else 0)
                self.n[g] = [m, rig, t]
            self.add('e', n, g)
        elif op == 'I':
            self.add('I', n, r.randint(1, 3))
        elif op == 'S':
            fit = [k for k in RIGS if len(RIGS[k]) == m]
            if fit:
                k = r.choice(fit)
                self.add('S', n, k)
                self.n[n][1] = k
                for i, o in enumerate(s):
                    if o:
                        self.frames[o - 1] = RIGS[k][i]
        elif op == 'e':
            self.add('e', n, r.choice(on))
        elif op == 'm':
            self.add('m', n)
        elif op in 'rc' and all(s) and len(set(s)) == m:
            for i in range(m if op == 'r' else 0):
                self.add('W', n, i, 'img', 1)
            self.add(op, n)
        elif op == 'x':
            self.add('x', n, r.randrange(4))
        elif op == 'b':
            self.fill(n, 1)


def programs(n, rng):
    out = []
    for _ in range(n):
        g = Gen(rng)
        g.build(0)
        g.fill(0, rng.choice([.5, 1]))
        for _ in range(rng.randint(3, 16)):
            g.step()
        g.add('m', 0)
        if rng.random() < .3:
            m = g.n[0][0]
            g.add(*rng.choice([('s', 0, m, 1), ('s', 0, 0, 0), ('u', 0, m), ('S', 0, 0), ('S', 0, rng.randint(1, 6)), ('W', 0, 0, 'ch', 1), ('r', 0), ('c', 0)]
                              + [('s', 0, i, o) for i in range(m) for o in range(1, min(4, len(g.frames) + 1))] if g.frames else [('S', 0, 0)]))
        out.append(' '.join(g.out))
    return out


def every():
    out = []
    for rig in range(1, 7):
        for op in ('A:0:1:%d' % rig, 'B:0:%d' % rig, 'Z:0:%d:4' % rig, 'N:0:1:%d' % len(RIGS[rig])):
            out.append(op + ' m:0 e:0:0 K:0:1 e:0:1 m:1 ' + ' '.join('x:0:%d' % i for i in range(4)))
            for other in range(0, 7):
                out.append(op + ' S:0:%d m:0 x:0:0 x:0:1' % other)
    out += ['A:0:1:0', 'B:0:0', 'Z:0:0:1']
    # Every frame into every slot of every rig.
    for rig in range(1, 6):
        for i in range(len(RIGS[rig]) + 1):
            for cam in range(6):
                out.append('A:0:1:%d f:%d:4 s:0:%d:1 x:0:%d m:0 u:0:%d m:0 x:0:%d' % (rig, cam, i, i, i, i))
        out += ['A:0:1:%d s:0:0:0' % rig, 'A:0:1:%d u:0:%d' % (rig, len(RIGS[rig]))]
    # Which slots are set, with which times; copied both ways and compared.
    for n in range(4):
        for mask in range(2 ** n):
            slots = [i for i in range(n) if mask >> i & 1]
            fr = ' '.join('f:%d:%d s:0:%d:%d' % (i + 1, 3 + (i * 2) % 3, i, k + 1) for k, i in enumerate(slots))
            base = 'N:0:1:%d %s ' % (n, fr)
            out.append(base + 'm:0 k:0:0 m:0 e:0:0 K:0:1 e:0:1 N:2:9:1 k:0:2 e:2:0 m:2 ' + ' '.join('W:1:%d:ch:7 e:0:1 W:1:%d:img:7 m:0 m:1' % (i, i) for i in slots))
            for m2 in range(2 ** n):
                if bin(mask ^ m2).count('1') <= 1:
                    s2 = [i for i in range(n) if m2 >> i & 1]
                    out.append(base + 'N:1:1:%d ' % n + ' '.join('f:%d:%d s:1:%d:%d' % (i + 1, 3 + (i * 2) % 3, i, len(slots) + k + 1) for k, i in enumerate(s2)) + ' e:0:1 e:1:0')
    for ts in [(a, b) for a in range(9) for b in range(9)]:
        for pre in ('N:0:1:3', 'A:0:1:5'):
            out.append(pre + ' f:1:%d f:2:%d f:5:4 s:0:0:1 m:0 s:0:1:2 m:0 s:0:2:3 m:0 u:0:0 m:0 u:0:1 m:0' % ts)
    two = 'A:0:1:1 f:1:4 f:2:5 s:0:0:1 s:0:1:2 F:1:ch:1 F:2:kp:2 F:1:img:1 F:2:img:1 '
    for how in ('K:0:1', 'A:1:2:3 k:0:1', 'N:1:3:4 k:0:1'):
        for o in (1, 2, 3, 4):
            for f, vs in FIELDS.items():
                for v in vs:
                    out.append(two + '%s e:0:1 F:%d:%s:%d e:0:1 e:1:0 m:0 m:1' % (how, o, f, v))
        for x in ('I:1:2', 'I:0:2', 'S:1:2', 'S:1:3', 'S:0:2', 'u:1:0', 'u:1:1', 'u:0:1', 'r:1', 'c:1', 'r:0', 'c:0'):
            out.append(two + how + ' %s e:0:1 e:1:0 m:0 m:1' % x)
    out += [two + x for x in ('u:0:0 r:0', 'u:0:0 c:0', 'u:0:1 m:0', 'r:0 m:0', 'F:1:kp:2 c:0 m:0 c:0', 'k:0:0 k:0:0 e:0:0 m:0', 'N:1:1:2 s:1:0:1 s:1:1:2 e:0:1 e:1:0', 'N:1:1:1 e:0:1 e:1:0', 'N:1:1:3 e:0:1')]
    # Frames in several slots and objects.
    out += ['N:0:1:3 f:1:4 s:0:0:1 s:0:1:1 s:0:2:1 K:0:1 W:1:0:ch:3 W:1:1:ch:4 W:0:0:ch:5 e:0:1 m:1', 'N:0:1:2 N:1:1:2 f:1:4 s:0:0:1 s:1:0:1 e:0:1 u:0:0 m:1 e:0:1 W:1:0:ch:3',
            'N:0:1:2 f:3:4 s:0:0:1 s:0:1:1 S:0:1', 'N:0:1:2 f:3:4 f:0:3 s:0:0:1 s:0:1:2 K:0:1 S:0:1 e:0:1 m:0 x:0:0 K:0:2 e:0:2']
    return out


def run(ctx):
    drv = vlib.build('nframes')[0]
    vlib.model(ctx, 'MCNFrames', 'MCNFrames.cfg', consts={} if ctx.quick else {'MaxFrames': '4', 'MaxSteps': '7'}, timeout=800)
    rng = random.Random(ctx.seed)
    for name, p in (('operations', every()), ('histories', programs(1200 if ctx.quick else 15000, rng))):
        traces, stats = vlib.explore(drv, p, name='nf')
        vlib.judge_suite(ctx, name, 'NFramesTrace', 'NFramesTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['images may be shared between copies of a frame', 'the earliest time of an object without frames is left open']


CHECKS = {'C12': run}
