"""C08: identifiers."""
import random
import vlib


def hexs(b):
    return bytes(b).hex()


def programs(n, rng):
    out = []
    H = b'0123456789abcdef'
    specials = [bytes(16), b'\x01' + bytes(15), bytes(8) + b'\x01' + bytes(7), bytes(15) + b'\x01', b'\xff' * 16,
                bytes(7) + b'\x80' + bytes(8), bytes(7) + b'\x01' + bytes(8), b'\x00\x01' + bytes(14), b'\x7f' * 16, b'\x80' * 16]

    def value():
        r = rng.random()
        if r < .5:
            return rng.choice(specials)
        if r < .7:
            v = bytearray(rng.choice(specials))
            v[rng.randrange(16)] = rng.choice([0, 1, 127, 128, 255])
            return bytes(v)
        return bytes(rng.randrange(256) for _ in range(16))

    def text():
        r = rng.random()
        good = bytearray(rng.choice(H) for _ in range(32))
        if r < .25:
            return good
        if r < .35:
            return bytearray(bytes(good).upper())
        if r < .5:
            return good[:rng.choice([0, 1, 2, 16, 30, 31])]
        if r < .6:
            return good + bytearray(rng.choice(H) for _ in range(rng.choice([1, 2, 32])))
        bad = rng.choice([b' ', b'+', b'-', b'x', b'g', b'G', b'\x00', b'/', b':', b'`', b'@', b'\xff', b'\n'])
        pos = rng.choice([0, 1, 30, 31, rng.randrange(32)])
        good[pos] = bad[0]
        if r < .7 and pos % 2:
            good[pos - 1] = ord('0')
        return good

    for _ in range(n):
        t = []
        for _ in range(rng.randint(4, 25)):
            r, s = rng.randrange(4), rng.randrange(4)
            t.append(rng.choice([
                'g%d' % r, 'c%d' % r, 'R%d' % r, 'n%d:%d' % (r, rng.choice([0, 1, 9, 10, 255, 99999, 2147483647, rng.randrange(10**9)])),
                'k%d' % r, 'f%d%s:%s' % (r, rng.choice(['', '1']), hexs(value())), 'f%d:%s' % (r, hexs(value())), 'h%d:%s' % (r, hexs(text())),
                'h%d:%s' % (r, hexs(text())), 'a%d%d' % (r, s), 'u%d%d' % (r, s), 'p%d%d' % (r, s), 't%d%d' % (r, s), 'x%d' % r,
                'q%d%d' % (r, s), 'q%d%d' % (r, s)] + (['b%d' % rng.randrange(4)] if rng.random() < .2 else [])))
        out.append(' '.join(t))
    return out


def pairs():
    """Every pair from a set of values that differ in each byte position, compared."""
    vs = []
    for i in range(16):
        for b in (1, 128):
            v = bytearray(16)
            v[i] = b
            vs.append(bytes(v))
    vs += [bytes(16), b'\xff' * 16]
    out = []
    for i, a in enumerate(vs):
        t = ['f0:' + hexs(a), 'x0']
        for b in vs[i:]:
            t += ['f1:' + hexs(b), 'q01', 'q10', 'p21', 'q12']
        out.append(' '.join(t))
    # every byte value and every position through the textual form
    for base in range(0, 256, 16):
        t = []
        for b in range(base, base + 16):
            v = bytes((b + 17 * i) % 256 for i in range(16))
            t += ['f0:' + hexs(v), 'x0', 'h1:' + hexs(v.hex().encode()), 'q01', 'h2:' + hexs(v.hex().upper().encode()), 'q02']
        out.append(' '.join(t))
    # every single character in an otherwise well formed text
    for pos in range(32):
        t = []
        for c in range(256):
            s = bytearray(b'0' * 32)
            s[pos] = c
            t.append('h0:' + hexs(s))
        out.append(' '.join(t))
    # every length
    out.append(' '.join('h%d:%s' % (i % 2, hexs(bytes(b'123456789abcdef0' * 5)[:i])) for i in range(67)))
    return out


def run(ctx):
    seq, mt = vlib.build('ids', 'ids_mt')
    vlib.model(ctx, 'MCIds', 'MCIds.cfg')
    traces, stats = vlib.explore(seq, pairs() + programs(250 if ctx.quick else 4000, random.Random(ctx.seed)), None, name='ids')
    vlib.judge_suite(ctx, 'identifier calls', 'IdsTrace', 'IdsTrace.cfg', traces, stats, driver=seq)
    traces, stats = vlib.explore(mt, ['g g', 'gg gg', 'g c n', 'R R', 'RR RR', 'R g', 'gcn gcn', 'RgR gRg c', 'ggg ccc nnn RRR'],
                                 1 if ctx.quick else 6, name='idsmt')
    vlib.judge_suite(ctx, 'concurrent generation', 'IdsTrace', 'IdsTrace.cfg', traces, stats, driver=mt)
    ctx.assumptions += ['identifiers produced by seeded random engines are compared within one run of up to a few hundred identifiers',
                        'threads are serialised by the scheduler: sequentially consistent memory']


CHECKS = {'C08': run}
