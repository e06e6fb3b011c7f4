"""C26: feature tracks."""
import random
import vlib

NUM = {(0, 0): 3, (0, 1): 3, (1, 0): 3, (1, 1): 2, (2, 0): 3}
KEYS = [(n, f, i) for (n, f), k in NUM.items() for i in range(k)]
K = lambda k: '%d:%d:%d' % k


def every():
    out = []
    add = lambda *ops: out.append(' '.join(ops))
    for n in range(4):
        for f in range(4):
            for i in range(5):
                add('t:0:3:0', 'a:0:%s' % K((n, f, i)), 'b:0')
                add('C:1:2:%s' % K((n, f, i)))
    for a in (-2, -1, 0, 1, 5):
        for b in (-1, 0, 1, 5):
            add('C:%d:%d:0:1:2' % (a, b))
    for room in (0, 1, 60):
        add('t:1:9:%d' % room, 'b:1')
        add('t:1:9:%d' % room, 'a:1:0:0:0', 'o:1', 'b:1')
        add('t:1:9:%d' % room, *['a:1:%s' % K(KEYS[i % len(KEYS)]) for i in range(70)])
    for x in (-9, -1, 0, 1, 6):
        for y in (-7, 0, 3):
            for x2 in (-8, 0, 5):
                for y2 in (-1, 0, 9):
                    add('t:0:1:0', 'K:0:0:1:%d:%d' % (x, y), 'K:1:1:1:%d:%d' % (x2, y2), 'a:0:0:0:1', 'b:0', 'a:0:1:1:1', 'b:0', 'a:0:2:0:2', 'b:0', 'o:0', 'b:0')
    for a in range(4):
        for b in range(4):
            add('t:0:1:0', 't:1:2:0', *(['a:0:%s' % K(KEYS[i]) for i in range(a)] + ['a:1:%s' % K(KEYS[i + 3]) for i in range(b)] + ['l:0:1', 'l:1:0', 'l:0:0']))
    add('t:0:1:0', 'a:0:1:0:2', 'c:0:1', 'a:0:0:0:0', 'o:1', 'N:1:77', 'D:1:0:2:200', 'c:0:2', 't:0:5:0')
    for n in range(3):
        for f in range(2):
            use = ['a:0:%s' % K((n, f, i)) for i in range(NUM.get((n, f), 0))]
            for num in (3, 5):
                add('t:0:1:0', *use, 'F:%d:%d:%d:%d:-5' % (n, f, num, 30 + num), 'a:0:%d:%d:2' % (n, f), 'b:0', 'K:%d:%d:1:-3:8' % (n, f), 'b:0', 'a:0:%d:%d:%d' % (n, f, num - 1))
            add('t:0:1:0', 'F:%d:%d:2:9:0' % (n, f), 'C:0:1:%d:%d:2' % (n, f))
            add('t:0:1:0', 'F:%d:%d:2:9:0' % (n, f), 'C:0:1:%d:%d:1' % (n, f), 'a:0:%d:%d:2' % (n, f))
    return out


def program(r):
    out, n, keys = [], {}, list(KEYS)
    for _ in range(r.randint(4, 25)):
        s = r.randrange(3)
        op = r.choice('taaaaaaoclbbbKKDNCF')
        if op == 't' or s not in n:
            out.append('t:%d:%d:%d' % (s, r.randint(0, 99), r.choice([0, 1, 80])))
            n[s] = 0
        elif op == 'a':
            out.append('a:%d:%s' % (s, K(r.choice(keys))))
            n[s] += 1
        elif op == 'o' and n[s]:
            out.append('o:%d' % s)
            n[s] -= 1
        elif op == 'c':
            g = r.randrange(3)
            if g != s:
                out.append('c:%d:%d' % (s, g))
                n[g] = n[s]
        elif op == 'l':
            out.append('l:%d:%d' % (s, r.choice(list(n))))
        elif op == 'b' and n[s]:
            out.append('b:%d' % s)
        elif op == 'K':
            out.append('K:%s:%d:%d' % (K(r.choice(keys)), r.randint(-60, 2000), r.randint(-60, 2000)))
        elif op == 'D':
            out.append('D:%s:%d' % (K(r.choice(keys)), r.randrange(256)))
        elif op == 'N':
            out.append('N:%d:%d' % (r.randrange(3), r.randint(1, 99)))
        elif op == 'F':
            w, f, num = r.randrange(3), r.randrange(2), r.randint(3, 5)
            num = max([num] + [k[2] + 1 for k in keys if k[:2] == (w, f)])
            out.append('F:%d:%d:%d:%d:%d' % (w, f, num, r.randint(1, 99), r.randint(-60, 400)))
            keys = [k for k in keys if k[:2] != (w, f)] + [(w, f, i) for i in range(num)]
        elif op == 'C':
            out.append('C:%d:%d:%s' % (r.randint(0, 3), r.randint(0, 3), K(r.choice(keys))))
    return ' '.join(out)


def programs(n, rng):
    return [program(rng) for _ in range(n)]


def run(ctx):
    drv = vlib.build('featuretracks')[0]
    vlib.model(ctx, 'MCFeatureTracks', 'MCFeatureTracks.cfg', consts={} if ctx.quick else {'MaxSteps': '8'}, timeout=800)
    rng = random.Random(ctx.seed)
    for name, p in (('operations', every()), ('histories', programs(1500 if ctx.quick else 20000, rng))):
        traces, stats = vlib.explore(drv, p, name='ft')
        vlib.judge_suite(ctx, name, 'FeatureTracksTrace', 'FeatureTracksTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['the frames a track refers to keep their keypoints (their number does not shrink)']


CHECKS = {'C26': run}
