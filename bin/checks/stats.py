"""C14: timers and statistics."""
import random
import vlib

MT = ['- aa1,aa2 aa4,ab8', '- aa1 h1a,ab2 n1a', '- h1a,aa1 h1a,aa2 h1b,ab4', '- h1a h1b h1a', '- ta,ta ta,tb n0a,n0b', '- ta,ta,ta ta,ta,ta', 'ta ta,ta ta,ta ta,ta', 'aa1 aa2,aa4 aa8,aa16 aa32,aa64',
      'aa1,ab2 p1 aa4,ac8', 'aa1,ab2 p1 r1', 'ta,tb p0 r0,tc', 'aa1,ab2 y1 ac4,ad8', 'aa1,ab2 y1 r1,ac4', 'ta,tb y0 tc,td', 'ta,tb y0 r0',
      '- aa1 aa2 aa4 sa', '- aa1,r1 aa2,n1a', 'aa1 r1,aa2 aa4,sa', '- h0a,h0b h0b,h0a h0c', 'ta p0 tb,tc,td', '- aa1,ab2,ac4 p1,p1',
      'aa1,ab1,ac1 p1,y1 r1,aa2', '- ta,r0,ta h0a,n0a', '- aa1,aa2,aa3 aa10,aa20,aa30 sa,n1a']

def programs(n, rng):
    out = []
    tags = ['a', 'b', 'cc', 'p@q', 'h#1']
    for _ in range(n):
        t = []
        ops = rng.choice(['aaaaaIIAffcgHPY', 'msptdxmsptcccFPYg', 'hhhgggHRR', 'aIAmspdxtccchgHffFFPYR', 'aaaaccccfff', 'mcpscpscpscpxff'])
        for _ in range(rng.randint(5, 40)):
            o = rng.choice(ops)
            g, r, i, k = rng.choice(tags), rng.randrange(2), rng.randrange(3), rng.randrange(6)
            t.append({'a': 'a:%s:%d' % (g, rng.choice([0, 1, -1, 5, 20, -20, 17])), 'I': 'I:' + g, 'A': 'A:%d:%d' % (k, rng.randrange(20)),
                      'c': 'c:%d' % rng.choice([0, 1, 2, 5, 30]), 'h': 'h:%d:%s' % (r, g), 'H': 'H:' + g, 'g': 'g:%d:%d' % (r, k),
                      'm': 'm:%d:%s:%d' % (i, g, rng.randrange(2)), 'f': 'f:%d:%s' % (r, g), 'F': 'F:%d:%d' % (r, k),
                      'P': 'P:%d' % r, 'Y': 'Y:%d' % r, 'R': 'R:%d' % r}.get(o, '%s:%d' % (o, i)))
        out.append(' '.join(t))
    for w in (0, 1, 2, 3, 7):
        for m in list(range(0, 18)) + [30, 50]:
            out.append('q:%d:%d:%d' % (w, m, rng.randrange(1000)))
    for m in (1, 2, 98, 99, 100, 101, 102, 150, 199, 200, 201, 205, 230):
        out.append('b:a:%d:%d f:1:a b:b:%d:%d b:a:1:5 f:1:a f:1:b' % (m, m, max(1, m - 1), m + 7))
        out.append('m:0:a:0 ' + ' '.join('s:0 c:%d p:0' % rng.randrange(30) for _ in range(m)) + ' f:0:a s:0 c:3 p:0 f:0:a')
    return out


def run(ctx):
    seq, mt = vlib.build('stats', 'stats_mt')
    for r in ('{0}', '{1}'):
        vlib.model(ctx, 'MCStats', 'MCStats.cfg', consts={'MaxSamples': 3 if ctx.quick else 4, 'R': r})
    traces, stats = vlib.explore(seq, programs(700 if ctx.quick else 8000, random.Random(ctx.seed)), name='st')
    vlib.judge_suite(ctx, 'sequential', 'StatsTrace', 'StatsTrace.cfg', traces, stats, driver=seq)
    traces, stats = vlib.explore(mt, MT, 1.5 if ctx.quick else 8, name='stmt', args=['250' if ctx.quick else '2000'])
    vlib.judge_suite(ctx, 'concurrent', 'StatsTrace', 'StatsTrace.cfg', traces, stats, driver=mt)
    ctx.assumptions += ['sample values and times are integers (timers: nanoseconds), so that figures are known exactly or to a hundredth',
                        'resetting detaches handles obtained before',
                        'tags that differ only in characters replaced in an exported file are not used together',
                        'threads are serialised by the scheduler: sequentially consistent memory']


CHECKS = {'C14': run}
