"""C09: channel groups."""
import random
import vlib

NAMED = {'VISUAL_KEYPOINT_MEASUREMENTS': 3, 'VISUAL_KEYPOINT_SCALES': 2, 'TRACK_IDS': 4, 'DESCRIPTORS': 5, 'RAW_IMAGE': 6}
MT = ['a0x a0y h0x,h0y', 'a0x,a1x e01 e10', 'a0x,a1x e01,e01 e10,e10', 'A0,A1,A2 e01 e12 e20', '- a0x a0y a0z', '- a0x,a0y c0 p0',
      'A0 r0 H0,H0 c0', 'A0,a0x r0,A0 H0,p0', 'a0x,a1x,a1y e01 e10 a0y', 'A0,A1 e01 r0', 'A0,A1 e10 r1,A1 p1', '- A0,r0,A0 H0,c0 p0',
      '- a0x,a1x,a0y,a1y e01,e10', 'a0x c0,c0 a0y', '- a0a,a0b,a0c a0d,a0e,a0f c0,p0', 'a0x,a1x e01 e10 e01', 'A0 c0 r0 H0', '- a1x,a0x e01 e10',
      'a0x,a1x e00,e01 e11,e10', 'a0x,a0y,a1x,a1y e01 c0,c1 e10', '- A0 A1 e01 e10']


def programs(n, rng):
    out = []
    for _ in range(n):
        t = []
        names = rng.sample(list(NAMED), rng.choice([1, 2, 3])) + ['free']
        for _ in range(rng.randint(6, 22)):
            g, h = rng.randrange(3), rng.randrange(3)
            nm = rng.choice(names)
            ty = NAMED.get(nm, rng.choice([1, 2, 3, 4, 5, 6]))
            if rng.random() < .15:
                ty = rng.choice([1, 2, 3, 4, 5, 6])
            k = rng.randrange(60) if rng.random() < .7 else 3 * rng.randrange(3)
            up = rng.random() < .5
            op = rng.choice('aaaawwwgghhrcsseeeep')
            if op in 'aw':
                t.append('%s:%d:%s:%d:%d' % (op.upper() if up else op, g, nm, ty, k))
            elif op in 'g':
                t.append('%s:%d:%s:%d' % (op.upper() if up else op, g, nm, ty))
            elif op in 'hr':
                t.append('%s:%d:%s' % (op.upper() if up and op == 'h' else op, g, nm))
            elif op in 'cse':
                if op in 'cs' and g == h:
                    h = (g + 1) % 3
                t.append('%s:%d:%d' % (op, g, h))
            else:
                t.append('p:%d' % g)
        out.append(' '.join(t))
    return out


def copies(rng, n):
    """Groups of every size filled, copied one way or the other, and then written through either side."""
    out = []
    names = list(NAMED) + ['free', 'free2', 'free3']
    for i in range(n):
        ns = rng.sample(names, 1 + i % 8)
        ty = {m: NAMED.get(m, rng.choice([1, 2, 3, 4, 5, 6])) for m in ns}
        t = ['a:0:%s:%d:%d' % (m, ty[m], 1 + rng.randrange(11)) for m in ns]
        have = {0}
        for _ in range(rng.randint(1, 3)):
            g = rng.choice(sorted(have))
            h = rng.choice([x for x in range(3) if x != g])
            t.append('%s:%d:%d' % (rng.choice('cccs'), g, h))
            have.add(h)
            for m in rng.sample(ns, min(len(ns), 3)):
                op, x = rng.choice('wwwWr' if m in NAMED else 'www'), rng.choice(sorted(have))
                t.append('r:%d:%s' % (x, m) if op == 'r' else '%s:%d:%s:%d:%d' % (op, x, m, ty[m], rng.randrange(60)))
            t.append('e:%d:%d' % (g, h))
        for m in ns:
            t.append('w:%d:%s:%d:%d' % (rng.choice(sorted(have)), m, ty[m], rng.randrange(60)))
        out.append(' '.join(t))
    return out


def pairs(quick):
    """Equality of groups with one channel each, for all pairs of values of each type and across types."""
    out = []
    for ty in (1, 2, 3, 4, 5, 6):
        n = {1: 5, 2: 12, 3: 12, 4: 12, 5: 30, 6: 84 if not quick else 42}[ty]
        for a in range(n):
            t = ['a:0:free:%d:%d' % (ty, a), 'a:1:free:%d:%d' % (ty, a), 'e:0:1']
            for b in range(n if not quick or ty != 6 else min(n, 21)):
                t += ['w:1:free:%d:%d' % (ty, b), 'e:0:1', 'e:1:0'] if b % 2 else ['w:1:free:%d:%d' % (ty, b), 'e:0:1']
            out.append(' '.join(t))
    for a in range(1, 7):
        for b in range(1, 7):
            out.append('a:0:free:%d:0 a:1:free:%d:0 e:0:1 e:1:0 c:0:2 e:0:2 e:2:1' % (a, b))
    return out


def run(ctx):
    seq, mt = vlib.build('channels', 'channels_mt')
    vlib.model(ctx, 'MCChannels', 'MCChannels.cfg')
    traces, stats = vlib.explore(seq, pairs(ctx.quick) + programs(400 if ctx.quick else 5000, random.Random(ctx.seed))
                                + copies(random.Random(ctx.seed + 1), 160 if ctx.quick else 2400), name='ch')
    vlib.judge_suite(ctx, 'sequential', 'ChannelsTrace', 'ChannelsTrace.cfg', traces, stats, driver=seq)
    traces, stats = vlib.explore(mt, MT, 0.5 if ctx.quick else 5, name='chmt', args=['150' if ctx.quick else '2000'])
    vlib.judge_suite(ctx, 'concurrent', 'ChannelsTrace', 'ChannelsTrace.cfg', traces, stats, driver=mt)
    ctx.assumptions += ['references to channel values are not written by one thread while another uses them',
                        'channel values without an initial value (scalars) are written before they are read',
                        'image contents may be shared between a group and its clone',
                        'threads are serialised by the scheduler: sequentially consistent memory']


CHECKS = {'C09': run}
