"""C16: binary descriptors."""
import random
import vlib


def refs(n, rng):
    out = []
    for _ in range(n):
        nr = rng.randint(2, 4)
        sizes = [rng.choice([1, 2, 3, 16, 17, 20]) for _ in range(rng.randint(1, 2))]
        if rng.random() < .5:
            sizes = [sizes[0]] * len(sizes)
        ref = [None] * nr          # (kind, size, ext)
        t = ['N:%d:%s' % (nr, ','.join(map(str, sizes)))]
        same = rng.random() < .6
        for _ in range(rng.randint(5, 25)):
            i = rng.randrange(nr)
            have = [k for k in range(nr) if ref[k]]
            o = rng.choice(['own', 'ext', 'copy', 'assign', 'assign', 'allocate', 'drop'] if not ref[i] or rng.random() < .3 else
                           ['set', 'set', 'flip', 'flip', 'get', 'get', 'at', 'zero', 'random', 'flipn', 'equal', 'equal', 'dist', 'dist', 'mean', 'mean'])
            if o == 'own':
                s = sizes[0] if same else rng.choice([1, 2, 16, 20])
                ref[i] = ('own', s)
                t.append('R:own:%d:%d:%d' % (i + 1, s, rng.randrange(99)))
            elif o == 'ext':
                k = rng.randrange(len(sizes))
                ref[i] = ('ext', sizes[k])
                t.append('R:ext:%d:%d' % (i + 1, k + 1))
            elif o == 'drop':
                ref[i] = None
                t.append('R:drop:%d' % (i + 1))
            elif o in ('copy', 'assign'):
                if not have:
                    continue
                k = rng.choice(have)
                if o == 'copy' and k == i:
                    continue
                if k != i:
                    own = 'own' in (ref[k][0], (ref[i] or 'x')[0] if o == 'assign' else 'x')
                    ref[i] = ('own' if own else 'ext', ref[k][1])
                t.append('R:%s:%d:%d' % (o, i + 1, k + 1))
            elif o == 'allocate':
                s = rng.choice([1, 2, 16, ref[i][1] if ref[i] else 3])
                ref[i] = ('own', s)
                t.append('R:allocate:%d:%d:%d' % (i + 1, s, rng.randrange(99)))
            elif o in ('set', 'flip', 'get', 'at'):
                lim = ref[i][1] * (1 if o == 'at' else 8)
                t.append('R:%s:%d:%d' % (o, i + 1, rng.randrange(lim) if rng.random() < .95 else lim + rng.randrange(3)))
            elif o == 'random':
                t.append('R:random:%d:%d' % (i + 1, rng.randrange(9)))
            elif o == 'flipn':
                t.append('R:flipn:%d:%d' % (i + 1, rng.choice([0, 1, 5, 8 * ref[i][1] - 1, 8 * ref[i][1], rng.randrange(8 * ref[i][1])])))
            elif o == 'zero':
                t.append('R:zero:%d' % (i + 1))
            elif o in ('equal', 'dist'):
                k = rng.randrange(nr)
                if o == 'dist' and not ref[k]:
                    continue
                t.append('R:%s:%d:%d' % (o, i + 1, k + 1))
            elif o == 'mean':
                # the destination must not be among the inputs, directly or through a shared buffer
                cand = [k for k in have if k != i and ref[k][1] == ref[have[0]][1] and (ref[k][0] == 'own' or ref[i][0] == 'own')]
                of = [rng.choice(cand) for _ in range(rng.randint(0, 4))] if cand else []
                t.append('R:mean:%d%s' % (i + 1, ''.join(':%d' % (k + 1) for k in of)))
        out.append(' '.join(t))
    return out


def bulk(quick, rng):
    out = []
    s = 0
    rows = [1, 2, 3, 5, 8, 15, 16, 17, 32, 48, 64] + ([] if quick else list(range(1, 80)))
    for r in rows:
        for c in [1, 2, 3, 4, 5, 8] + ([] if quick else [6, 7, 9, 16, 25]):
            for mode in range(5):
                s += 1
                out.append('B:%d:%d:%d:%d' % (r, c, mode, s))
    for r in list(range(0, 70)) + [96, 128, 255, 256, 257, 495, 496, 511, 512, 513, 528, 992, 1000, 1024, 1100, 4096] + ([] if quick else list(range(70, 600, 3))):
        for mode in range(5):
            s += 1
            out.append('D:%d:3:%d:%d:%d' % (r, mode, s, s % 5))
    for r in (1, 2, 3, 6) if quick else range(1, 12):
        for b in range(8 * r + 3):
            s += 1
            out.append('b:%d:%d:%d' % (r, b, s))
    rng.shuffle(out)
    return [' '.join(out[i:i + 12]) for i in range(0, len(out), 12)]


def run(ctx):
    drv, = vlib.build('descriptors')
    vlib.model(ctx, 'MCDescriptors', 'MCDescriptors.cfg', consts={} if ctx.quick else {'NumRefs': 3})
    rng = random.Random(ctx.seed)
    traces, stats = vlib.explore(drv, bulk(ctx.quick, rng), name='desc')
    vlib.judge_suite(ctx, 'functions', 'DescriptorsTrace', 'DescriptorsTrace.cfg', traces, stats, driver=drv)
    traces, stats = vlib.explore(drv, refs(3000 if ctx.quick else 30000, rng), name='descr')
    vlib.judge_suite(ctx, 'references', 'DescriptorsTrace', 'DescriptorsTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['a mean is not computed into one of its inputs', 'references do not outlive the bytes they point to',
                        'real-valued results are compared to a thousandth of their integer multiple']


CHECKS = {'C16': run}
