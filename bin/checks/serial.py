"""C10: channel serialization."""
import random
import vlib

SCALARS = 'bool i8 u8 i16 u16 i32 u32 i64 u64 f d'.split()
SHAPED = 'Md M2d M3d Vd Rd Md3 S3d Mf Mi Vi Mu Mi8 M16 Vu16 LMu LMd LVd LM2f LS3d LRi cv'.split()


def programs(quick, rng):
    out = []
    for ty in SCALARS + SHAPED:
        for h in 'sb':
            for _ in range(2 if quick else 20):
                out.append('%s %s %s' % (ty, h, ' '.join(str(rng.randrange(10**6)) for _ in range(40))))
            for _ in range((6 if quick else 60) if ty in SCALARS else (3 if quick else 40) if ty != 'cv' else (8 if quick else 100)):
                out.append('%s %s !%d' % (ty, h, rng.randrange(10**6)))
    return out


def cls(t, at, bad):
    return 'serial|%s|%s' % ((bad or {}).get('ty', '?'), (bad or {}).get('e', 'end'))


def run(ctx):
    drv, = vlib.build('serial')
    vlib.model(ctx, 'Serial', 'MCSerial.cfg')
    traces, stats = vlib.explore(drv, programs(ctx.quick, random.Random(ctx.seed)), name='ser')
    vlib.judge_suite(ctx, 'serialization', 'SerialTrace', 'SerialTrace.cfg', traces, stats, driver=drv, cls=cls)
    ctx.assumptions += ['memory errors are observed by the address sanitizer', 
                        'refusal is a false return value, a failed assertion or an exception']


CHECKS = {'C10': run}
