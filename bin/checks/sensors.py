"""C19: sensors and matrices as YAML."""
import itertools, json, random
import vlib

KINDS = {'d33': (3, 3), 'dX3': (-1, 3), 'd3X': (3, -1), 'dXX': (-1, -1), 'dX1': (-1, 1), 'd1X': (1, -1), 'd41': (4, 1),
         'd14': (1, 4), 'd11': (1, 1), 'fXX': (-1, -1), 'f2X': (2, -1), 'iXX': (-1, -1), 'i22': (2, 2), 'iX1': (-1, 1), 'lXX': (-1, -1)}
TEXTS = ['', 'a', '/cam0/image_raw', 'two words', 'null', '~', 'true', '12', '0x1f', 'a: b', '# no comment', "it's", '"quoted"', '- x',
         'line\nbreak', ' lead', 'trail ', '\ttab', '{a: b}', '[1,2]', '&a', '*a', '!t', '%x', '@x', '|', '>', '?', ':', ',', 'ä€', 'a\\n']


def hx(s):
    return s.encode().hex()


def sensors(n, rng):
    out = []
    zero = '0' * 32
    for _ in range(n):
        k = rng.choice([1, 2, 3])
        t = ['S:%d' % k]
        ids = [''.join(rng.choice('0123456789abcdef') for _ in range(32)) for _ in range(2)] + ['0' * 31 + '1']
        texts = [rng.choice(TEXTS) for _ in range(3)] + [TEXTS[0], TEXTS[2]]

        def txt():
            return hx(rng.choice(texts))

        def idtok():
            return rng.choice(ids) if rng.random() < .9 else zero
        for _ in range(rng.randint(3, 20)):
            i, j, d = rng.randrange(k), rng.randrange(k), rng.randrange(3)
            o = rng.choice('nIWgTDXGrcc==vvwwwdddRRRRRR')
            if o == 'n':
                t.append('n:%d:%s:%s:%s' % (i, rng.choice([idtok(), idtok(), '-']), txt(), txt()))
            elif o == 'I':
                t.append('I:%d:%s' % (i, idtok()))
            elif o == 'W':
                if rng.random() < .3:
                    t.append('W:%d' % i)
            elif o in 'grv':
                t.append('%s:%d' % (o, i))
            elif o in 'TDX':
                t.append('%s:%d:%s' % (o, i, txt()))
            elif o == 'G':
                t.append('G:%d:%d' % (i, rng.randrange(2)))
            elif o == 'c':
                t.append('%s:%d:%d' % (rng.choice(['c', 'ca']), i, j))
            elif o == '=':
                t.append('=:%d:%d' % (i, j))
            elif o == 'w':
                t.append('w:%d:%d:%d' % (i, d, rng.randrange(2)))
            elif o == 'd':
                if rng.random() < .15:
                    t.append('d:%d:%s:-:-:-:-' % (d, rng.choice(['null', 'list', 'scalar', 'undefined'])))
                else:
                    def entry():
                        return rng.choice(['-', 'l', 's' + txt(), 's' + txt(), 's' + txt()])
                    x = rng.choice(['-', 'l'] + ['s' + hx(y) for y in (idtok(), idtok(), idtok(), rng.choice(ids).upper(), rng.choice([ids[0][:31], ids[0] + '0', ids[0][:31] + 'g', '', ' ' + ids[0][:31], '+' + ids[0][:31], '0x' + ids[0][:30]]))])
                    t.append('d:%d:map:%s:%s:%s:%s' % (d, x, entry(), entry(), entry()))
            elif o == 'R':
                t.append('R:%d:%d:%s' % (i, d, rng.choice('ntf')))
        out.append(' '.join(t))
    return out


def differences(n, rng):
    """Copies that differ in one part, compared both ways."""
    out = []
    for _ in range(n):
        t = ['S:2']
        for _ in range(4):
            x, y = [rng.choice(['', 'a', '/imu0', ' ']) for _ in '12']
            t += ['n:0:%s:%s:%s' % (rng.choice(['-', '%032x' % rng.randrange(1, 9)]), hx(x), hx(y))]
            if rng.random() < .6:
                t.append('X:0:' + hx(rng.choice(['', 'x', 'extra'])))
            t += [rng.choice(['c', 'ca']) + ':1:0', '=:0:1']
            for _ in range(rng.choice([1, 1, 2])):
                t.append(rng.choice(['X:1:', 'T:1:', 'D:1:']) + hx(rng.choice(['', 'a', 'x', '/imu0', ' '])) if rng.random() < .8 else 'I:1:%032x' % rng.randrange(1, 9))
                t += ['=:0:1', '=:1:0']
        out.append(' '.join(t))
    return out


def tag(x):
    if isinstance(x, list):
        return ['l', [tag(y) for y in x]]
    return ['i', x] if isinstance(x, int) else ['x']


def doc(rows, cols, data):
    m = {k: v for k, v in (('rows', rows), ('cols', cols), ('data', data)) if v is not None}
    a = [['-'] if v is None else tag(v) for v in (rows, cols, data)]
    return json.dumps(a, separators=(',', ':')), json.dumps(m)


def documents(quick, rng):
    out = []
    dims = [1, 2, 3] if quick else [1, 2, 3, 4]
    for kind in KINDS:
        for r, c in itertools.product(dims + [4], repeat=2):
            full = [[10 * i + j for j in range(c)] for i in range(r)]
            flat = [x for row in full for x in row]
            one = [[x] for x in flat]
            bad = [full[:-1], full + [full[0]], flat[:-1], flat + [5], [row[:-1] for row in full], [row + [1] for row in full],
                   full[:-1] + [full[-1][:-1]], full[:-1] + [full[-1] + [1]], 'text', 7, None, [], [['x'] * c] * r, full[:-1] + [['y'] * c],
                   full[:-1] + [3], [[[x] for x in row] for row in full], [full], [flat], [[x] for x in full]]
            for data in [full, flat, one] + (rng.sample(bad, 6) if quick else bad):
                out.append('M:%s:%s|%s' % (kind, *(y if q == 0 else y.encode().hex() for q, y in enumerate(doc(r, c, data)))))
            for rr, cc in rng.sample([(c, r), (r + 1, c), (r, c + 1), (None, c), (r, None), ('a', c), (r, 'b'), (-1, c), (r, -1), ([r], c), (r, 'x')], 2):
                a, y = doc(rr, cc, full)
                out.append('M:%s:%s|%s' % (kind, a, y.encode().hex()))
    for kind in KINDS:
        for r, c in itertools.product([0, 1, 2, 3, 7], repeat=2):
            for mode in range(3):
                out.append('E:%s:%d:%d:%d:%d' % (kind, r, c, len(out), mode))
    for data in [5, -3, 'word', [1, 2], [], [1, 'x'], None, [[1]], {'a': 1}]:
        for asmap in (True, False):
            e = ['-'] if data is None else ['m'] if isinstance(data, dict) else tag(data)
            d = ({} if data is None else {'key': data}) if asmap else ['key']
            if data is None and asmap:
                d = {'other': 1}
            out.append('Q:%d:%s|%s' % (asmap, json.dumps(e, separators=(',', ':')), json.dumps(d).encode().hex()))
    out += ['F'] * 2
    rng.shuffle(out)
    return [' '.join(out[i:i + 10]) for i in range(0, len(out), 10)]


def run(ctx):
    drv, = vlib.build('sensors')
    vlib.model(ctx, 'MCSensors', 'MCSensors.cfg')
    rng = random.Random(ctx.seed)
    traces, stats = vlib.explore(drv, documents(ctx.quick, rng), name='yamlm')
    vlib.judge_suite(ctx, 'matrices', 'SensorsTrace', 'SensorsTrace.cfg', traces, stats, driver=drv)
    traces, stats = vlib.explore(drv, sensors(3000 if ctx.quick else 30000, rng) + differences(300 if ctx.quick else 5000, rng), name='yamls')
    vlib.judge_suite(ctx, 'sensors', 'SensorsTrace', 'SensorsTrace.cfg', traces, stats, driver=drv)
    ctx.assumptions += ['entries are not YAML nulls', 'documents of empty matrices are left open']


CHECKS = {'C19': run}
