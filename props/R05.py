"""ruptures built from coordinates, and what is measured on them"""
import random

from props.rupture_common import *


def canary(s):
    for st in s['steps']:
        if st['r']['ok'] and st['s']['rup']['cls'] == 'quad' and st['r']['views']['width'] > 100:
            st['r']['views']['width'] += 30
            return s
    return None


def run(ctx):
    rnd = random.Random('R05/%s' % ctx.seed)
    tc = consts()
    E = 'ConsistentLengthError'
    n, e, s, w, d = [0, 1], [1, 0], [0, -1], [-1, 0], [3, 4]
    builds = [vertices([QUAD], ['a']), vertices([QUAD], ['a'], [0], E), vertices([QUAD, TRAP], [], (), E), vertices([CHAIN, WEST], ['b'], [5, 5, 2]),
              vertices([CHAIN], ['b']), vertices([WALL], ['c']), vertices([TRAP, WEST, shift(QUAD, [9, 0, 0])], []),
              arrays([QUAD], ['a'], 50), arrays([TWIST], ['a'], 50), arrays([SLOPE], [], 20), arrays([BENT, shift(CHAIN, [8, 2, 0])], ['b'], 100, [1, 1, 1, 0, 0, 0]),
              arrays([WALL], [], 50), arrays([CHAIN], ['d'], 300, [6, 6, 6]),
              trace([hang([0, 0, 1], [0, 6, 1], n, 3, 4)], ['a']), trace([hang([0, 0, 0], [0, -6, 0], s, 0, 4)]),
              trace([hang([0, 0, 1], [3, 4, 1], d, 5, 1), hang([3, 4, 1], [6, 8, 1], d, 5, 1)], ['b'], [1, 1]),
              trace([hang([0, 0, 1], [5, 0, 1], e, 2, 2), hang([0, 4, 0], [-5, 4, 0], w, 4, 3)], ['b']),
              trace([hang([0, 0, 1], [0, 6, 1], d, 5, 4)], ['c']), trace([hang([0, 0, 1], [0, 6, 1], n, 3, 4)], bad=E),
              trace([hang([0, 0, 1], [0, 6, 1], n, 3, 4)], bad='TypeError'),
              trace([hang([0, 0, 1], [0, 6, 1], n, 3, 4)], how='orient'), trace([hang([2, 1, 3], [-1, 5, 3], [-3, 4], 5, 2)], how='orient'),
              trace([hang([0, 0, 1], [5, 0, 1], e, 2, 2), hang([0, 4, 0], [-5, 4, 0], w, 0, 3)], how='orient'),
              trace([hang([0, 0, 1], [0, 6, 1], n, 3, 4)], bad=E, how='orient'), POINT]
    sites = [(x, y) for x in (-1, 1, 2, 4) for y in (-1, 1, 3, 7)]
    ctx.conform('Rupture', 'rupture', consts([], [], builds, sites), extra_sessions=rand(rnd, 400 if ctx.quick else 15000, ('build', 'depth')),
                canary=canary, trace_consts=tc, variants=1 if ctx.quick else 4, label='constructors')
