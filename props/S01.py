"""scale bars"""
import random

from props.R02 import q as tla, qset

UNITS = {'km': 1000, 'm': 1, 'dm': .1, 'cm': .01, 'mm': .001, 'kmi': 1852, 'in': .0254, 'ft': .3048, 'us-ft': .3048, 'ind-ft': .3048, 'yd': .9144, 'ind-yd': .9144,
         'mi': 1609.3, 'us-mi': 1609.3, 'fath': 1.8288, 'ch': 20.117, 'us-ch': 20.117, 'ind-ch': 20.117, 'link': .2012, 'us-in': .0254}


def degrees(x0, x1, y0, y1):
    return {'kind': 'degrees', 'x0': x0, 'x1': x1, 'y0': y0, 'y1': y1}


def metres(w, h, kind='metres'):
    return {'kind': kind, 'x0': 300000 if w < 1000000 else -15000000, 'x1': (300000 if w < 1000000 else -15000000) + w, 'y0': 1000000, 'y1': 1000000 + h}


def draw(units='km', pos='ll', padx=10, pady=10, font=10, len=None, div=None, plain=False):
    return {'op': 'draw', 'units': units, 'pos': pos, 'padx': padx, 'pady': pady, 'font': font, 'len': [] if len is None else [len], 'div': [] if div is None else [div], 'plain': plain}


def width(m, u):
    import math
    w = m['x1'] - m['x0']
    w = {'degrees': w * 55595.5 * math.cos(math.radians((m['y0'] + m['y1']) / 4)), 'metres': w, 'feet': w * .3048}[m['kind']]
    return w / UNITS[u]


def canary(s):
    for st in s['steps']:
        if st['r']['ok'] and st['r'].get('labels'):
            st['r']['labels'][-1]['says'] += 200
            return s
    return None


def run(ctx):
    rnd = random.Random('S01/%s' % ctx.seed)
    q = ctx.quick
    maps = [degrees(-240, -236, 68, 72), degrees(-360, 360, -180, 180), degrees(10, 11, 158, 160), degrees(-3, 3, -140, -137), metres(400000, 300000), metres(30000000, 9000000), metres(850000, 900000, 'feet'), metres(1000, 300)]
    draws = [draw(), draw('mi', 'ur', 5, 20, 8), draw('kmi', 'lr', 0, 0, 14), draw('m', 'ul', 7, 3), draw('ft', 'lr'),
             draw(len=2500, div=5), draw(len=10000, div=4, pos='ur'), draw('mi', len=250, div=2), draw(len=3000, div=6, pos='ul'), draw(len=7500, div=3), draw(len=1000, div=6),
             draw(len=1000), draw(div=4), draw(len=1000, div=7), draw(len=1000, div=1), draw('furlong'), draw(pos='left'), draw(plain=True), draw('x', div=2), draw(len=0, div=0)]
    consts = dict(Maps=qset(maps), Draws=qset(draws), Limit='2' if q else '3')

    def one_map():
        k = rnd.random()
        if k < 0.5:
            y0, x0 = rnd.randint(-170, 150), rnd.randint(-360, 340)
            return degrees(x0, x0 + rnd.randint(1, 20 if rnd.random() < .7 else 200), y0, min(y0 + rnd.randint(1, 30), 172))
        return metres(int(10 ** rnd.uniform(2.3, 5.6)), int(10 ** rnd.uniform(2.3, 5.6))) if k < 0.8 else metres(int(10 ** rnd.uniform(3, 6)), 100000, 'feet')

    def session():
        m, calls = degrees(-240, -236, 68, 72), []
        for _ in range(rnd.randint(2, 6)):
            if rnd.random() < 0.5:
                m = one_map()
                calls.append({'op': 'frame', 'map': m})
            us = [u for u in UNITS if 16 < width(m, u) < 1900000]
            u = rnd.choice(us)
            d = draw(u, rnd.choice(['ll', 'lr', 'ul', 'ur']), rnd.choice([10, 0, rnd.randint(0, 40)]), rnd.choice([10, rnd.randint(0, 40)]), rnd.choice([10, 6, 12, 20]))
            if rnd.random() < 0.4:
                n, k = int(width(m, u) * rnd.uniform(5, 60)), rnd.choice([1, 10, 100, 1000])
                d['len'], d['div'] = [min(n // k * k if n > 5 * k else n, 100000000)], [rnd.randint(2, 6)]
            if rnd.random() < 0.1:
                d.update(rnd.choice([{'div': [7]}, {'len': [], 'div': [3]}, {'units': 'league'}, {'pos': 'c'}, {'plain': True}]))
            calls.append(d)
        return calls

    extra = [{'calls': session(), 'seed': rnd.randrange(1 << 30)} for _ in range(250 if q else 6000)]
    ctx.conform('ScaleBar', 'scalebar_', consts, extra_sessions=extra, canary=canary, variants=1 if q else 2, label='scale bars')
