"""distances from sites to ruptures"""
import random

from props.R02 import q, qset
from props.rupture_common import BENT, CHAIN, QUAD, SLOPE, TRAP, TWIST, WALL, WEST, dot, edge_group, flat_group, quads, right, shift, sub

ALL = ['repi', 'rhypo', 'rjb', 'rrup', 'rx', 'ry', 'ry0', 'U', 'T', 'rvolc']
GC = ALL[4:9]
KNOWN = ['repi', 'rhypo', 'rjb', 'rrup', 'rx', 'ry0', 'rvolc', 'rcdpp', 'azimuth']      # what a GMPE may ask for


def make(cls, polys, org=(1, 1, 3), dx=100, mag=65, mech='', region=''):
    return {'op': 'make', 'cls': cls, 'polys': polys, 'org': list(org), 'dx': dx, 'mag': mag, 'mech': mech, 'region': region}


def ask(sites, methods=ALL, how='get', shape='1d', dx=50):
    return {'op': 'ask', 'sites': [list(s) for s in sites], 'methods': list(methods), 'how': how, 'shape': shape, 'dx': dx}


def canary(s):
    for st in s['steps']:
        if st['c']['op'] == 'ask' and st['r']['ok'] and st['r']['v']['rrup'] and st['s']['rup']['cls'] != 'point':
            st['r']['v']['rrup'][0] += 20 + st['r']['v']['rrup'][0] // 20
            return s
    return None


def rand_make(r):
    while True:
        k = r.choice([1, 1, 2, 3])
        if r.random() < 0.5:
            cls, polys = 'quad', [flat_group(r) for _ in range(k)]
        else:
            cls, polys = 'edge', [r.choice([edge_group, edge_group, flat_group])(r) for _ in range(k)]
        if k > 1 and r.random() < 0.5:          # in line, one after another, with gaps and either way round
            cls, polys = 'quad', in_line(r, k)
        if all(tidy(p, cls) for p in polys) and (cls == 'edge' or sum(right(x) == 0 for p in polys for x in quads(p)) <= 1):
            break
    lens = [dot(e, e) ** 0.5 for p in polys for x in quads(p) for e in (sub(x[1], x[0]), sub(x[3], x[0]), sub(x[2], x[1]))]
    least = int(max(lens) / 6 * 100) + 1
    return make(cls, polys, [r.randint(-5, 8), r.randint(-5, 8), r.randint(0, 6)], r.choice([least, least + r.randrange(300), 1500])), least


def tidy(p, cls):
    """a trace that goes on from one quadrilateral to the next"""
    e = [sub(x[1], x[0])[:2] for x in quads(p)]
    return all(dot(a, b) > 0 for a, b in zip(e, e[1:])) and (cls == 'edge' or len({right(x) > 0 for x in quads(p)}) == 1)


def in_line(r, k):
    """groups one after another with gaps, some of several quadrilaterals that bend, either way round"""
    d = r.choice([(0, 1), (1, 0), (1, 1), (-1, 1)])
    e = (d[1], -d[0])                                # to the right
    z, at, out = r.randint(0, 2), r.randint(-7, -2), []
    for _ in range(k):
        w, dz, turn = r.randint(1, 3), r.randint(1, 4), 0
        ns, cs = [at], [0]
        for _ in range(r.choice([1, 1, 2, 3])):
            ns.append(ns[-1] + r.randint(2, 4))
            cs.append(cs[-1] + r.choice([0, 0, 1, -1]))
        top = [[n * d[0] + c * e[0], n * d[1] + c * e[1], z] for n, c in zip(ns, cs)]
        o = [e[0] * w, e[1] * w, dz]
        if r.random() < 0.4:
            top, o = top[::-1], [-o[0], -o[1], dz]
        out.append(top + [[x + y for x, y in zip(p, o)] for p in top[::-1]] + [top[0]])
        at = ns[-1] + r.randint(0, 2)
    r.shuffle(out)
    return out


def rand_sites(r, c):
    out = []
    ps = [p for x in c['polys'] for p in x] or [c['org']]
    for _ in range(r.randint(1, 6)):
        k = r.random()
        if k < 0.5:
            s = [r.randint(-9, 13), r.randint(-9, 13), 0]
        elif k < 0.8:
            s = list(r.choice(ps))[:2] + [0]
        else:
            x, y = r.choice(ps), r.choice(ps)
            s = [(x[0] + y[0]) // 2, (x[1] + y[1]) // 2, 0]
        if r.random() < 0.15:
            s[2] = r.randint(1, 4)
        out.append(s)
    return out


def rand_ask(r, c, least):
    ms = r.choice([ALL, ['rrup'], ['rjb', 'rrup'], GC, ['ry0'], r.sample(ALL, r.randint(1, 5))])
    how = r.choice(['get'] * 6 + ['context'] * 3 + ['one', 'notgmpe'])
    if how == 'one':
        ms = [r.choice(ALL)]
    if r.random() < 0.05:
        ms = ms + [r.choice(['rcdpp', 'azimuth', 'Rrup', ''])]
        how = 'get' if how == 'one' else how
    if how in ('context', 'notgmpe'):
        ms = [m for m in ms if m in KNOWN] or ['rrup']
    return ask(rand_sites(r, c), ms, how, r.choice(['1d', '1d', 'row', 'column', 'grid', 'grid', 'differ']), r.choice([least, least + r.randrange(400), 1000 + r.randrange(500)]))


def sessions(r, n):
    out = []
    for _ in range(n):
        c, least = rand_make(r)
        calls = [c]
        for _ in range(r.randint(1, 5)):
            calls.append(rand_ask(r, c, least))
            if r.random() < 0.1:
                c, least = rand_make(r)
                calls.append(c)
        out.append({'calls': calls, 'seed': r.randrange(1 << 30), 'line': r.random() < 0.15})
    return out


def points(r, n, real):
    out = []
    for _ in range(n):
        c = make('point', [], [0, 0, r.choice([3, 8, 15])], mag=r.choice([40, 55, 65, 75]), mech=r.choice(['', 'ALL', 'SS', 'RS', 'NM']),
                 region=r.choice(['', 'active', 'stable', 'active', 'stable', 'other']))
        s = [[x, y, 0] for x, y in ((0, 5), (5, 0), (3, 4), (0, 0), (12, 9), (0, r.randint(1, 30)), (r.randint(40, 90), 0))]
        r.shuffle(s)
        out.append({'calls': [c, ask(s, ['rjb', 'rrup', 'repi', 'rhypo'], r.choice(['get', 'context']), r.choice(['1d', 'row']))] +
                    ([ask(s[:4], GC)] if r.random() < 0.5 else []), 'seed': r.randrange(1 << 30), 'real': real})
    return out


def consts(makes, asks):
    return {'Makes': qset(makes), 'Asks': qset(asks)}


def run(ctx):
    rnd = random.Random('R06/%s' % ctx.seed)
    around = [[-2, 3, 0], [1, 1, 0], [2, 8, 0], [9, 2, 0], [0, 0, 0], [3, -4, 0]]
    makes = [make('quad', [QUAD]), make('quad', [WALL], (0, 0, 9)), make('quad', [CHAIN, WEST]), make('quad', [TRAP]),
             make('edge', [BENT], dx=200), make('edge', [TWIST, shift(SLOPE, [8, 0, 0])], dx=300)]
    asks = [ask(around), ask(around, GC[:1], 'one', dx=300), ask(around[:4], ['rrup', 'rjb'], shape='grid', dx=200), ask(around[:3], ['rrup', 'ry0'], 'context', 'column'),
            ask(around, ['rcdpp']), ask(around, ['rjb'], 'notgmpe'), ask(around, ['rjb'], shape='differ')]
    ctx.conform('Distances', 'distances', consts(makes, asks), extra_sessions=sessions(rnd, 500 if ctx.quick else 8000) + points(rnd, 4 if ctx.quick else 40, True) + points(rnd, 60 if ctx.quick else 1000, False),
                canary=canary, variants=1 if ctx.quick else 4, label='distances')
