"""colors of data"""
import random

from props.R02 import q, qset

W = [255, 255, 255]
MMI = [W, W, [191, 204, 255], [160, 230, 255], [128, 255, 255], [122, 255, 147], [255, 255, 0], [255, 200, 0], [255, 145, 0], [255, 0, 0]]
GRAY = [[g] * 3 for g in (255, 191, 159, 127, 95, 63, 31, 0)]
TOPO = [[195, 255, 193], [110, 135, 80], [120, 160, 90], [230, 220, 110], [210, 170, 80], [195, 140, 100], [100, 80, 70], [60, 60, 60], W, W, [255, 128, 0], [255, 0, 0]]


def pal(zs, c0=(), c1=(), unit=1, res=0, nan=(0, 0, 0, 0), log=False, how='direct', name='', map=()):
    n = len(zs) - 1
    c0 = [list(c) for c in c0] or [[0, 0, 0]] * n
    c1 = [list(c) for c in c1] or [[0, 0, 0]] * n
    return {'zs': list(zs), 'c0': c0, 'c1': c1, 'unit': unit, 'res': res, 'nan': list(nan), 'log': log, 'how': how, 'name': name, 'map': [list(m) for m in map]}


PRESETS = [pal([k * 1000 for k in range(11)], MMI, MMI[1:] + [[200, 0, 0]], 1000, 100, how='preset', name='mmi'),
           pal([4 * z for z in (0, 4, 49, 99, 499, 999, 4999, 9999, 50000)], GRAY, GRAY, 4, 4, how='preset', name='pop'),
           pal([4 * z for z in (-100, 0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100, 9200)], TOPO[:-1], TOPO[1:], 4, 4, (128, 128, 128, 0), how='preset', name='shaketopo')]


def some(r):
    how = r.choice(['direct', 'direct', 'file', 'map'])
    n = r.randint(1, 7)
    unit = r.choice([1000, 200, 100])
    log = how in ('direct', 'map') and r.random() < 0.3
    rgb = lambda: [r.choice([0, 255, r.randint(0, 255)]) for _ in range(3)]
    if how == 'map':
        w = r.choice([0.25, 0.5, 1, 2, 4])
        n = r.choice([1, 2, 4])
        lo = r.randint(-6, 4)
        zs = [int(unit * (lo + w * k)) for k in range(n + 1)]
        c0 = c1 = ()
        m = [rgb() for _ in range(r.choice([2, 3, 5, 7, 11, 16]))]
    else:
        m = ()
        zs = [unit * r.randint(-8, 4)]
        for _ in range(n):
            zs.append(zs[-1] + r.choice([unit, unit // 2, unit // 10, r.randint(1, 3 * unit)]))
        c0 = [rgb() for _ in range(n)]
        c1 = c0[1:] + [rgb()] if r.random() < 0.4 else [rgb() for _ in range(n)]
    nan = [0] * 4 if r.random() < 0.3 else [r.choice([7, 255])] * 4 if r.random() < 0.2 and how != 'file' else [r.randint(0, 255) for _ in range(4)]
    return pal(zs, c0, c1, unit, r.choice([0, unit // 10, unit // 100, unit]), nan, log, how, '', m)


def make(k, short=''):
    return {'op': 'make', 'k': k, 'short': short}


def setv(which, v):
    return {'op': 'set', 'which': which, 'v': v}


def look(format, *vs):
    return {'op': 'look', 'format': format, 'vs': list(vs)}


NODATA = 9999999
BOUNDS = {'op': 'bounds'}
FORMATS = ['mlab', '255', 'hex', 'array', 'map']


def canary(s):
    for st in s['steps']:
        if st['c']['op'] == 'look' and st['r']['ok'] and st['r']['n'] and st['c']['vs'][0] != NODATA:
            st['r']['n'][0][0] = (st['r']['n'][0][0] + 100) % 256
            return s
    return None


def run(ctx):
    rnd = random.Random('K01/%s' % ctx.seed)
    quick = ctx.quick
    fixed = [pal([0, 1000, 2000, 3000], [[0] * 3, [85] * 3, [170] * 3], [[85] * 3, [170] * 3, [255] * 3], 1000),
             pal([-4000, 0, 100, 5000], [[10, 20, 30], [255, 0, 0], [0, 255, 0]], [[200, 100, 0], [255, 0, 255], [0, 0, 255]], 1000, 1, [1, 2, 3, 4], log=True),
             pal([0, 1000, 2000, 3000], [[0] * 3, [85] * 3, [170] * 3], [[85] * 3, [170] * 3, [255] * 3], 1000, 10, [9, 8, 7, 255], how='file'),
             pal([-4000, -2000, 0, 2000, 4000], unit=1000, log=True, how='map', map=[[250, 0, 0], [0, 250, 0], [0, 0, 250], [10, 20, 30], [99, 98, 97]])]
    pals = PRESETS + fixed + [some(rnd) for _ in range(12 if quick else 60)]
    vals = [-500, 0, 1, 390, 400, 1000, 1500, 1504, 2500, 2600, 4100, 9999, 10000, 40001, 300000, NODATA]
    looks = [look(f, *vals) for f in FORMATS] + [look('rgb', 5)]
    DATA = ['z0', 'z1', 'rgb0', 'rgb1']
    shorts = DATA + ['-z0', 'z1+rgb1', 'z0+z1', 'rgb0+rgb1', 'z1+rgb0+rgb1', 'z0+rgb0', 'z0+rgb1']
    makes = [make(k) for k in range(1, 8)] + [make(4, s) for s in shorts] + [make(7, s) for s in ('z0', 'z1')] + [make(1 + len(pals))]
    sets = [setv('lo', -2000), setv('lo', 1000), setv('lo', 8000), setv('hi', 2000), setv('hi', 7000), BOUNDS]
    # the population palette has 50000 steps: too many to be stretched in 32 bits
    consts = dict(Pals=q(pals), Makes=qset([m for m in makes if m['k'] not in (2, 3)]), Looks=qset(looks), Sets=qset(sets))
    w = {'pals': pals}

    def session():
        calls = []
        for _ in range(rnd.randint(1, 4)):
            k = rnd.randint(1, len(pals)) if rnd.random() < 0.8 else rnd.randint(1, 3)
            p = pals[k - 1]
            if p['how'] in ('direct', 'map') and rnd.random() < 0.15:
                calls.append(make(k, rnd.choice(shorts if p['how'] == 'direct' else ['z0', 'z1'])))
            calls.append(make(k))
            lo, hi = p['zs'][0], p['zs'][-1]
            for _ in range(rnd.randint(1, 6)):
                x = rnd.random()
                if x < 0.2 and k not in (2, 3):
                    if rnd.random() < 0.4:
                        d, span = rnd.choice([-1, 1]) * rnd.randint(hi - lo, 3 * (hi - lo) + 9), rnd.choice([hi - lo, rnd.randint(1, 9000)])
                        lo, hi = lo + d, lo + d + span
                        calls += [setv('lo', lo), setv('hi', hi)][::rnd.choice([1, -1])]
                    elif rnd.random() < 0.5:
                        lo = hi - rnd.choice([p['unit'], 3 * p['unit'], rnd.randint(1, 9000)])
                        calls.append(setv('lo', lo))
                    else:
                        hi = lo + rnd.choice([p['unit'], 3 * p['unit'], rnd.randint(1, 9000)])
                        calls.append(setv('hi', hi))
                elif x < 0.3:
                    calls.append(BOUNDS)
                else:
                    span = hi - lo
                    v = lambda: rnd.choice([NODATA, lo, hi, lo - 1, hi + 1, rnd.choice(p['zs']) + rnd.choice([-1, 0, 1, 5, -5]), rnd.randint(lo, hi), rnd.randint(lo, hi), lo + rnd.randint(0, max(1, span // 20)), rnd.randint(lo - span, hi + span)])
                    calls.append(look(rnd.choice(FORMATS * 3 + ['rgb', 'HEX']), *[v() for _ in range(rnd.randint(1, 8))]))
        return calls

    n = 400 if quick else 15000
    extra = [{'calls': session(), 'seed': rnd.randrange(1 << 30), 'consts': w} for _ in range(n)]
    ctx.conform('Palette', 'palette_', consts, extra_sessions=extra, canary=canary, variants=1 if quick else 4, concretise=lambda s: dict(s, consts=w), label='palette')
