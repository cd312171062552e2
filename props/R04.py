"""a rupture written out reads back as itself"""
import random

from props.rupture_common import *


def canary(s):
    for st in s['steps']:
        if st['r']['ok'] and st['c']['op'] in ('load', 'redict') and st['s']['rup']['cls'] == 'edge':
            st['s']['rup']['dx'] += 5
            return s
    return None


def run(ctx):
    rnd = random.Random('R04/%s' % ctx.seed)
    tc = consts()
    builds = [vertices([QUAD], ['a']), vertices([CHAIN, WEST], ['b', 'c'], [7, 7, 3]), vertices([WALL], []), arrays([BENT], ['a'], 125),
              arrays([QUAD], ['c'], 50), arrays([QUAD, shift(BENT, [6, 1, 0])], [], 200, [4, 4, 2, 2, 2]), POINT,
              trace([hang([0, 0, 1], [3, 4, 1], [3, 4], 5, 2)], ['d'])]
    jsons = [([QUAD], ['a'], ''), ([TWIST], ['b'], '')]
    ctx.conform('Rupture', 'rupture', consts([], jsons, builds, writing=True), extra_sessions=rand(rnd, 300 if ctx.quick else 12000),
                canary=canary, trace_consts=tc, variants=1 if ctx.quick else 4, label='round trips')
