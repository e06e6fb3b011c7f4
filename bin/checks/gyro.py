"""C22: following keypoints from frame to frame."""
import itertools
import random
import vlib

W, H = 800, 600   # half pixels
HOME = {1 + i + 5 * j: (400 + 140 * (i - 2), 300 + 140 * (j - 1)) for i in range(5) for j in range(3)}


def det(f, x, y):
    return '%d.%d.%d' % (f, x, y)


def detections(r, feats, mirrored, shake):
    out = []
    for f in feats:
        x, y = HOME[f]
        for _ in range(mirrored % 4):
            x, y = W // 2 - (y - H // 2), H // 2 + (x - W // 2)
        out.append(det(f, x + r.randint(-shake, shake), y + r.randint(-shake, shake)))
    if r.random() < .15:
        out.append(det(r.randint(20, 22), *r.choice([(-60, 200), (W, 100), (W - 1, 100), (300, H + 40), (0, 200), (-1, 200)])))
    r.shuffle(out)
    return ','.join(out)


def moves(r, t, border, n):
    out = []
    b = 2 * border
    for i in range(n):
        c = r.random()
        k = 10 * t + i
        if c < .2:
            out.append('%d.0' % i)
        elif c < .4:
            edge = r.choice([(b, 100 + k), (b - 1, 100 + k), (W - b, 100 + k), (W - b - 1, 100 + k), (100 + k, b), (100 + k, b - 1), (100 + k, H - b), (100 + k, H - b - 1)])
            out.append('%d.%d.%d' % ((i,) + edge))
        elif c < .5:
            out.append('%d.%d.%d%s' % (i, 190 + 140 * (i % 4), 215 + k, r.choice(['', '', '.0', '.%d' % (30 + k)])))
    return ','.join(out)


def program(r):
    border = r.choice([0, 1, 10, 20])
    out = ['s:%d:%d:%d:%d' % (r.choice([4, 4, 3, 2, 2, 1, 0]), r.choice([1, 2, 2, 3, 10]), r.choice([0, 1, 1, 1, 2]), border)]
    feats = r.sample(sorted(HOME), r.choice([1, 2, 4, 6, 8]))
    mirrored = 0
    shake = r.choice([0, 2, 4])
    keep = r.choice([.5, .7, .9])
    out.append('d:' + detections(r, [f for f in feats if r.random() < keep + .1], mirrored, shake))
    for t in range(r.randint(2, 8)):
        if r.random() < .1:
            out.append('s:%d:%d:%d:%d' % (r.choice([4, 2, 0]), 2, 1, border))
        turned = r.choice([0] * 9 + [1, 2, 3])
        mirrored += turned
        seen = [f for f in feats if r.random() < keep]
        bad = r.randint(1, 9) if r.random() < .02 else 0
        out.append('d:%s:%s:%d:%d' % (detections(r, seen, mirrored, shake), moves(r, t, border, r.choice([0, 0, 8])), turned, bad))
        if r.random() < .93:
            out.append('m:' + ','.join(str(i) for i in range(12) if r.random() < .1))
        if r.random() < .1:
            feats = r.sample(sorted(HOME), 6)
    return ' '.join(out)


def programs(n, rng):
    return [program(rng) for _ in range(n)]


def every():
    out = []
    frame = lambda fs: ','.join(det(f, *HOME[f]) for f in fs)
    # One keypoint: every history of being detected or not, for all small limits.
    for n in (3, 4, 5, 6):
        for seen in itertools.product([0, 1], repeat=n):
            if not seen[0] or sum(seen) == n and n > 3:
                continue
            for most, least in ((1, 0), (1, 1), (2, 1), (3, 1), (2, 2), (2, 0)):
                p = ['s:4:%d:%d:10' % (most, least)]
                for s in seen:
                    p += ['d:' + frame([8] * s + [9, 10, 11]), 'm:']
                out.append(' '.join(p[:2] + p[3:]))
    # How many are followed, and which: five keypoints of different ages, all combinations of numbers detected next and ratios.
    for ratio in range(5):
        for n in range(5):
            for least, most in ((1, 2), (0, 10), (2, 1)):
                p = ['s:%d:%d:%d:5' % (ratio, most, least), 'd:' + frame([1, 2, 3])]
                for fs in ([2, 1, 3, 4], [4, 3, 1, 5, 2], [5, 6, 2], [6, 1, 7, 3]):
                    p += ['d:' + frame(fs), 'm:']
                p += ['d:' + frame([8, 9, 10, 11][:n]), 'm:', 'd:' + frame([8, 9, 10, 11][:n]), 'm:']
                out.append(' '.join(p))
    # Every edge of the region where keypoints are followed; lost; not described.
    for border in (0, 1, 7):
        b = 2 * border
        for x, y in [(x, 200) for x in (b - 1, b, b + 1, W - b - 1, W - b, W - b + 1)] + [(200, y) for y in (b - 1, b, b + 1, H - b - 1, H - b, H - b + 1)]:
            for tail in ('0.0', '0.%d.%d' % (x, y), '0.%d.%d.0' % (x, y), '0.%d.%d.40' % (x, y)):
                p = 's:4:3:0:%d d:%s d:%s:%s m: d:%s:1.0 m: d:%s m:' % (border, frame([8, 9]), frame([10, 11]), tail, frame([10]), frame([10, 11, 12]))
                out.append(p)
    # Turning camera.
    for turns in itertools.product(range(4), repeat=2):
        p = 's:4:2:0:5 d:%s d:%s::%d m: d:%s::%d m:' % (frame([2, 8]), frame([9]), turns[0], frame([12, 10]), turns[1])
        out.append(p)
        r = random.Random(3)
        out.append('s:4:2:0:5 d:%s d:%s::%d m: d:%s::%d m:' % (detections(r, [1, 7, 8, 14], 0, 3), detections(r, [14, 8, 2, 1], turns[0], 3), turns[0], detections(r, [1, 8], sum(turns), 3), turns[1]))
    # Refusals, settings, nothing detected.
    for bad in range(1, 10):
        for ratio in (0, 4):
            out.append('s:%d:2:1:5 d:%s d:%s::0:%d' % (ratio, frame([1, 2]), frame([1, 2]), bad))
    out += ['s:%d:%d:1:5 d:%s d:%s m:' % (ratio, most, frame([1]), frame([1])) for ratio in (-1, 0, 1, 4, 5) for most in (0, 1)]
    for a, b, c in itertools.product(['', frame([1]), frame([1, 2])], repeat=3):
        for least in (0, 1):
            out.append('s:4:2:%d:5 d:%s d:%s m: d:%s m:' % (least, a, b, c))
            out.append('s:4:2:%d:5 d:%s d:%s::2 m: d:%s::2 m:' % (least, a, b, c))
    for x, y in ((-2, 100), (-1, 100), (0, 100), (W - 1, 100), (W, 100), (1, 100), (100, 0), (100, H - 3), (100, H - 1), (100, H), (100, 1)):
        for turned in (0, 2):
            out.append('s:4:2:0:0 d:%s,%s d:%s::%d m: d:%s::%d m:' % (det(20, x, y), frame([8]), frame([9, 10]), turned, frame([9]), turned))
    return out


def run(ctx):
    drv = vlib.build('gyro')[0]
    runs = [{}, {'Ratio': '2', 'Most': '2', 'Least': '0'}, {'Points': '2', 'Length': '6', 'Most': '2', 'Drops': 'TRUE'}, {'Points': '2', 'Length': '6', 'Most': '3', 'Least': '2', 'Drops': 'TRUE'}]
    if not ctx.quick:
        runs += [{'Ratio': '2', 'Most': '2', 'Least': '0', 'Length': '6'}, {'Points': '4', 'Ratio': '2'}, {'Length': '6', 'Most': '2', 'Least': '2'}, {'Length': '5', 'Ratio': '3', 'Drops': 'TRUE'}]
    for c in runs:
        vlib.model(ctx, 'MCGyro', 'MCGyro.cfg', consts=c, timeout=800)
    rng = random.Random(ctx.seed)
    for name, p in (('operations', every()), ('histories', programs(1500 if ctx.quick else 20000, rng))):
        traces, stats = vlib.explore(drv, p, name='gy')
        vlib.judge_suite(ctx, name, 'GyroTrace', 'GyroTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['optical flow and the extractor of descriptors are scripted; frames hold keypoints of one type; detected keypoints have no negative row']


CHECKS = {'C22': run}
