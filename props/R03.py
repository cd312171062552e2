"""reading rupture files: what is accepted, as what, and what is refused"""
import random

from props.rupture_common import *


def canary(s):
    for st in s['steps']:
        if st['r']['ok'] and st['c']['op'] == 'load' and st['s']['rup']['polys']:
            st['s']['rup']['polys'][0][1][2] += 1
            return s
    return None


def run(ctx):
    rnd = random.Random('R03/%s' % ctx.seed)
    tc = consts()
    up = shift(QUAD, [4, -2, 1])
    flip = [QUAD[3], QUAD[2], QUAD[1], QUAD[0], QUAD[3]]         # bottom edge first
    texts = [('new', ref('a') + pts(QUAD)), ('old', ref('a') + ref('b') + pts(rotated(QUAD, 2)) + END + pts(CHAIN) + END),
             ('new', END + pts(QUAD) + END + END + pts(rotated(TRAP, 1)) + END + ref('c')), ('new', pts(flip)), ('new', ref('b') + pts(TWIST)),
             ('old', pts(SLOPE)), ('comma', pts(QUAD)), ('new', pts(QUAD[:-1])), ('new', pts(QUAD) + BAD), ('old', pts(WALL[:3] + WALL[:1])),
             ('new', []), ('new', ref('a')), ('new', pts(QUAD) + END + pts(rotated(BENT, 3)) + END + pts(up)), ('old', pts(rotated(BENT, 5))),
             ('new', pts([[0, 0, 2], [0, 6, 2], [3, 6, 2], [3, 0, 2], [0, 0, 2]])), ('new', pts(QUAD) + END + pts(up[:2] + up[3:]))]
    jsons = [([QUAD], ['a'], ''), ([CHAIN, WEST], ['b'], ''), ([TWIST], [], ''), ([up, SLOPE], ['c'], ''), ([BENT, WALL], ['d'], ''), ([RAGGED], [], ''),
             ([rotated(QUAD, 1)], ['a'], ''), ([QUAD, rotated(TRAP, 3)], ['a'], ''), ([QUAD[:-1]], ['a'], ''), ([QUAD, QUAD[1:]], ['a'], ''),
             ([], ['a'], ''), ([[QUAD[0], QUAD[3], QUAD[0]]], ['a'], ''), ([QUAD[:3] + QUAD[4:]], ['a'], '')]
    jsons += [([QUAD], ['a'], b) for b in ('collection', 'two', 'zero', 'reference', 'metadata', 'feature', 'geometry', 'coordinates', 'cut')]
    files = [(t, None) for t in texts] + [(None, j) for j in jsons]
    rnd.shuffle(files)
    n = 9
    for k in range(0, len(files), n):
        part = files[k:k + n]
        ctx.conform('Rupture', 'rupture', consts([t for t, _ in part if t], [j for _, j in part if j]),
                    extra_sessions=rand(rnd, 150 if ctx.quick else 1500, ('file', 'write')),
                    canary=canary if k == 0 else None, trace_consts=tc, variants=1 if ctx.quick else 6, label='files')
