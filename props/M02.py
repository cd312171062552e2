"""compass points"""
import random

from props.R02 import qset

RES = ['cardinal', 'intercardinal', 'meteorological']


def azimuth(a, resolution='intercardinal', format='short'):
    return {'op': 'azimuth', 'a': a, 'resolution': resolution, 'format': format}


def places(p, q, resolution='intercardinal', format='short'):
    return {'op': 'places', 'lat1': p[0], 'lon1': p[1], 'lat2': q[0], 'lon2': q[1], 'resolution': resolution, 'format': format}


def canary(s):
    for st in s['steps']:
        if st['c']['op'] == 'azimuth' and st['r']['ok']:
            st['r']['text'] = {'N': 'S', 'North': 'South'}.get(st['r']['text'], 'N')
            return s
    return None


def ask(r):
    res, form = r.choice(RES * 8 + ['ordinal']), r.choice(['short', 'long'] * 8 + ['medium'])
    if r.random() < 0.5:
        a = r.choice([r.randint(-28800, 28800), r.randrange(0, 28801, 900) + r.choice([-1, 0, 1]), 900 * r.randint(-32, 32), 0, 28800, 28799])
        return azimuth(a, res, form)
    p = (r.randint(-178, 178), r.randint(-360, 360))
    k = r.random()
    if k < 0.5:
        q = (max(-178, min(178, p[0] + r.randint(-30, 30))), p[1] + r.randint(-30, 30))
    else:
        q = (r.randint(-178, 178), r.randint(-360, 360))
    if abs(q[1]) > 360:
        q = (q[0], q[1] - 720 if q[1] > 0 else q[1] + 720)
    return places(p, q, res, form)


def run(ctx):
    rnd = random.Random('M02/%s' % ctx.seed)
    asks = [azimuth(a, res, f) for a in list(range(-28800, 28801, 450 if not ctx.quick else 900)) + [899, 901, 1799, 1801, 27899, 27901, 28799] for res in RES for f in ('short', 'long')]
    asks += [places(p, q, res, f) for p, q in (((70, -240), (75, -230)), ((0, 350), (10, -350)), ((-100, 20), (-100, 60)), ((120, 0), (120, 200)), ((10, 10), (10, -10)), ((0, 0), (-20, 0)), ((5, 5), (5, 5)))
             for res in RES for f in ('short', 'long')]
    asks += [azimuth(100, 'ordinal'), azimuth(100, 'cardinal', 'medium'), places((0, 0), (1, 1), 'x'), places((0, 0), (1, 1), 'cardinal', 'x')]
    n = 600 if ctx.quick else 30000
    extra = [{'calls': [ask(rnd) for _ in range(rnd.randint(5, 20))], 'seed': rnd.randrange(1 << 30)} for _ in range(n)]
    ctx.conform('Compass', 'compass_', dict(Asks=qset(asks)), extra_sessions=extra, canary=canary, variants=1 if ctx.quick else 3, label='compass')
