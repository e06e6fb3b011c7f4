"""C06, C07: multi-camera pipeline."""
import random
import vlib

FIXED = [
    # in order, complete
    '2 2 1 S0.10,S1.10,S0.20,S1.20,w,c,p,n,n,n', '2 1 0 S0.10,S1.10,w,n,n', '1 2 0 S0.10,S0.20,S0.30,w,n,n,n', '3 3 2 S0.10,S1.11,S2.12,w,p,n',
    # tolerance, ties, overwriting, late images
    '2 1 2 S0.10,w,S1.12,w,n,p', '2 1 2 S0.10,w,S1.13,w,n,p,c', '2 1 3 S0.10,w,S0.14,w,S1.12,w,p,c,n,p', '2 1 5 S0.10,w,S0.20,w,S1.16,w,n,S1.12,w,n,n',
    '2 1 4 S0.10,w,S0.12,w,S1.11,w,n,n', '2 1 0 S0.10,w,S0.10,w,S1.10,w,n,S1.10,w,n,p', '2 1 1 S0.20,w,S0.10,w,S1.20,w,n,S1.10,w,n,n',
    # dropped frames
    '2 1 0 S0.1,w,S0.2,w,S1.2,w,S0.3,w,S1.3,w,S0.4,w,S1.4,w,p,c,n,n,n,n', '2 1 0 S0.1,w,S0.3,S1.3,w,S0.4,w,S0.5,S1.5,w,S0.6,S1.6,w,p,c,n,n,n,n',
    '2 1 0 S0.1,w,S0.3,S1.3,w,S0.4,S1.4,w,p,c,n,n,n', '2 1 0 S0.1,S0.2,S0.3,S0.4,w,S1.3,w,S1.4,w,p,c,n,n', '2 1 0 S0.1,S0.2,S0.3,w,S1.2,w,S1.3,w,p,c,n,n',
    '2 1 0 S0.1,S0.2,S0.3,S0.4,S0.5,w,S1.4,w,S1.2,w,S1.5,w,p,c,n,n,n', '2 1 0 S0.1,S0.2,S0.3,S0.4,S0.5,S0.6,w,S1.3,w,S1.5,w,S1.6,w,p,c,n,n,n,n',
    # duplicates of a time already complete
    '2 1 0 S0.1,S1.1,w,S0.1,S1.1,w,c,n,n,n', '1 1 0 S0.1,S0.1,S0.1,w,c,n,l,n', '1 2 0 S0.1,S0.1,w,l,c', '1 1 0 S0.3,S0.3,w,D0.4.2,w,c,n,n,n',
    # fetching the latest
    '2 1 0 S0.1,w,S0.3,S1.3,w,p,l,p,c', '2 1 0 S0.1,S1.1,w,S0.2,w,S0.3,S1.3,w,l,p,c,S1.2,w,p', '1 1 0 S0.1,S0.2,S0.3,w,l,c,l', '2 1 2 S0.10,S1.12,w,S0.13,w,S1.10,w,p,l,p',
    '2 1 3 S0.10,w,S1.12,w,S0.14,w,l,p,c', '2 2 0 S0.5,S1.5,S0.1,w,l,p', '1 2 0 S0.1,S0.2,w L L', '1 1 0 w,l S0.1,S0.2,S0.3',
    # blocking
    '1 1 0 N S0.1', '1 2 0 N N S0.1 S0.2', '1 1 0 S0.1,S0.2,w,n B0.3.2,B0.4.2', '1 1 0 x N', '1 1 0 q,x N N L', '1 1 0 S0.1,w,q,x B0.2.1 B0.3.1',
    '1 1 0 B0.1.1,w,q,n,w,n B0.2.1', '1 1 0 x B0.1.0', '1 2 0 S0.1,w,x,N,L,B0.2.5', '1 1 0 S0.1,S0.2,w,l B0.3.1 B0.4.2', '1 1 0 S0.1,w,D0.2.1,w,c,n B0.3.1',
    '1 1 0 S0.1,w,q,n,x B0.2.1', '1 1 0 S0.1,w,q,l,x B0.2.1', '1 1 0 q,S0.1,x N', '1 1 0 q,S0.1,x L', '1 1 0 S0.1,w,q,D0.2.1,x B0.3.2', '1 2 0 N,N B0.1.1,B0.2.1',
    # dropping
    '1 1 0 D0.1.1,w,D0.2.1,w,D0.3.2,w,c,n,n', '1 1 0 S0.3,S0.1,w,D0.2.2,w,n,n', '1 2 0 D0.1.1,D0.2.1 n,n c', '1 1 0 S0.1,S0.2,w,D0.3.1,w,c,n,n',
    # shutting down
    '2 2 0 S0.1,S1.1,x,S0.2,w,n', '1 1 0 x S0.1,S0.2 n', '1 2 0 x,c,p D0.1.1,D0.2.1', '2 2 1 S0.1,S1.1,S0.5,S1.5', '1 1 0 x,x x', '2 2 0 S0.1 S1.1 n,c,p',
    '2 2 0 S0.1,S0.2 S1.1,S1.2 l,p', '2 3 0 S0.1,S0.2,S0.3,S0.4 S1.2,S1.3,S1.4 w,p', '3 2 0 S0.1,S0.2 S1.1,S1.2 S2.1,S2.2',
]


def programs(n, rng):
    out = []
    for _ in range(n):
        cams = rng.choice([1, 1, 2, 2, 3])
        tol = rng.choice([0, 0, 1, 2, 5])
        left = rng.randint(3, 9)
        t = rng.randint(1, 5)
        scripts = []
        for c in range(rng.randint(1, 3)):
            s = []
            t0 = t
            for _ in range(rng.randint(1, 6)):
                if left > 0 and rng.random() < .65:
                    left -= 1
                    k = rng.choice('SSSSBD')
                    ts = max(0, t0 + rng.randint(-tol - 1, tol + 1))
                    s.append('%s%d.%d' % (k, rng.randrange(cams), ts) + ('' if k == 'S' else '.%d' % rng.randint(1, 3)))
                    t0 += rng.choice([0, 0, 1, tol + 1, 2 * tol + 1])
                else:
                    s.append(rng.choice('nnnlNLcpwqyyx' if rng.random() < .4 else 'nlcpw'))
            scripts.append(','.join(s))
        out.append('%d %d %d %s' % (cams, rng.choice([1, 2, 3]), tol, ' '.join(scripts)))
    return out


def histories(n, rng):
    """One image after the other: every pattern of arrival, dropped images and fetches."""
    out = []
    for _ in range(n):
        cams, tol = rng.choice([1, 2, 2, 2, 3]), rng.choice([0, 0, 1, 3])
        step = rng.choice([1, tol + 1, 2 * tol + 1, 2 * tol + 2])
        loss = rng.choice([0, .1, .3])
        imgs = []
        for f in range(rng.randint(2, 7)):
            for c in range(cams):
                if rng.random() >= loss:
                    imgs.append((f + (rng.randint(0, 2) if rng.random() < .3 else 0), '%d.%d' % (c, max(0, 5 + f * step + rng.randint(-tol, tol) // 2))))
        imgs.sort(key=lambda x: x[0])
        s = []
        for _, i in imgs[:20]:
            s.append(('S' + i) if rng.random() < .8 else 'D%s.%d' % (i, rng.randint(1, 3)))
            s.append('w')
            s.append(rng.choice('cpcppnl') if rng.random() < .5 else 'p')
        out.append('%d 1 %d %s' % (cams, tol, ','.join(s + ['c', 'n', 'n', 'l', 'p'])))
    return out


def behind(n, rng):
    """Cameras that lag behind another, some of whose images get lost."""
    out = []
    for _ in range(n):
        cams, frames, tol = rng.choice([2, 2, 2, 3]), rng.randint(4, 8), rng.choice([0, 0, 2])
        step = 2 * tol + rng.randint(1, 2)
        at = lambda c, f: '%d.%d' % (c, 5 + step * f + rng.randint(0, tol))
        s = ['S%s,w' % at(0, f) for f in range(frames)]
        rest = [(c, f) for c in range(1, cams) for f in range(frames)]
        if rng.random() < .5:
            rng.shuffle(rest)
        else:
            late = [rng.choice([0, 0, 3, 9]) for _ in range(frames)]
            rest.sort(key=lambda x: x[1] + late[x[1]])
        for c, f in rest[:rng.randint(3, 14)]:
            s.append('S%s,w,%s' % (at(c, f), 'p' if rng.random() < .9 else rng.choice('lnc')))
        out.append('%d 1 %d %s' % (cams, tol, ','.join(s + ['p', 'c'] + ['n'] * 5)))
    return out


def misgrouped(trace, at, bad):
    """The group-only specification stops at a set that was not delivered before, or at the number of open sets."""
    if bad is None or bad['e'] != 'r':
        return False
    if bad['o'] == 'open':
        return True
    if not bad.get('res'):
        return False
    before = [e['res'] for e in trace['ev'][:at] if e['e'] == 'r' and e.get('res')]
    return bad['res'] not in before


def run(ctx):
    drv, = vlib.build('pipeline')
    small = {'Image': '{1, 2, 3}'} if ctx.quick else None
    vlib.model(ctx, 'MCPipeline', 'MCPipeline.cfg', consts=small)
    if ctx.prop == 'C07':
        vlib.model(ctx, 'MCPipeline', 'MCPipelineLive.cfg', consts={'Image': '{1, 2}'} if ctx.quick else None, timeout=800)
    elif not ctx.quick:
        vlib.model(ctx, 'MCPipeline', 'MCPipelineSeq.cfg', timeout=800)
    rng = random.Random(ctx.seed)
    kw = {'own': {'Check': '{}'}} if ctx.prop == 'C06' else {'other': {'Check': '{}'}, 'unless': misgrouped}
    for name, ps, scale, most in (('concurrent', FIXED + programs(25 if ctx.quick else 250, rng), 0.25 if ctx.quick else 2, '40' if ctx.quick else '500'),
                                  ('histories', histories(150 if ctx.quick else 2000, rng) + behind(120 if ctx.quick else 2000, rng), 0.02, '1' if ctx.quick else '2')):
        traces, stats = vlib.explore(drv, ps, scale, name='pl', args=[most])
        for t in traces:
            t['_keep'] = ['cams', 'tol']
        vlib.judge_suite(ctx, name, 'PipelineTrace', 'PipelineTrace.cfg', traces, stats, driver=drv, **kw)
    ctx.assumptions += ['the pipeline is not used by other threads while it is being destroyed',
                        'of two sets of the same time, and of two open sets equally near, either may be taken',
                        'threads are serialised by the scheduler: sequentially consistent memory',
                        'schedules are sampled beyond the preemption bound of the systematic part']


CHECKS = {'C06': run, 'C07': run}
