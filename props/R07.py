"""directions, slip and meshes on quadrilaterals"""
import os
import random

from props.R02 import q as tla, qset
from vf import tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUADS = [[[0, 0, -1], [0, 6, -1], [3, 6, -5], [3, 0, -5]],                   # dips 53 degrees to the east
         [[0, 0, -2], [8, 6, -2], [11, 2, -14], [3, -4, -14]],               # strike (8, 6), steep
         [[0, 0, 0], [10, 0, 0], [10, 0, -8], [0, 0, -8]],                   # vertical, along a parallel
         [[0, 0, -1], [-6, -8, -1], [-14, -2, -6], [-8, 6, -6]],
         [[0, 0, -1], [0, 12, -1], [4, 8, -4], [4, 2, -4]],                  # a trapezoid
         [[0, 0, 0], [10, 0, 0], [10, 7, -8], [0, 0, -8]],                   # twisted, the plane of the others vertical
         [[0, 0, -3], [0, -5, -3], [-12, -5, -8], [-12, 0, -8]]]


def slip(s, d, r, part='all'):
    return {'op': 'slip', 'strike': 4 * s, 'dip': 4 * d, 'rake': 4 * r, 'part': part}


def mech(*r):
    return {'op': 'mech', 'rake': list(r)}


def apart(a, b, c, p):
    return {'op': 'apart', 'a': a, 'b': b, 'c': c, 'p': p}


def canary(s):
    for st in s['steps']:
        if st['c']['op'] in ('strike', 'down'):
            st['r']['v'][0] += 40
            return s
    return None


FOUND = {'local': ([slip(20, 30, 90), slip(20, 30, 90, 'ds')], 'get_local_unit_slip_vector, get_local_unit_slip_vector_DS'),
         'quad': ([{'op': 'slipon', 'rake': 120}], 'get_quad_slip')}


def known(ctx):
    """the findings listed, of which each that is still so is named"""
    out = []
    with open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) as f:
        lines = [x.strip() for x in f]
    for k in sorted(FOUND):
        for x in lines:
            if x.startswith('known: property=R07 %s: ' % FOUND[k][1]):
                out.append((k, x[len('known: property=R07 '):]))
    return out


def run(ctx):
    rnd = random.Random('R07/%s' % ctx.seed)
    q = ctx.quick
    listed = known(ctx)
    rakes = [0, 90, -90, 30, 180, -135, 45] if q else list(range(-180, 181, 15))
    slips = [slip(s, d, r, p) for s in (0, 22, 45, 90, 135, 200, 359) for d, r in ((90, 0), (30, 86), (45, -90), (60, 135), (0, 180), (89, -20)) for p in ('all', 'ds', 'ss')]
    mechs = [mech()] + [mech(10 * s * r + d) for s in (1, -1) for r in (0, 30, 60, 90, 120, 150, 180) for d in (-1, 0, 1)]
    aparts = [apart([0, 0, 0], [1, 0, 0], [0, 1, 0], [3, 4, 5]), apart([0, 0, 7], [4, 0, 7], [0, 3, 7], [1, 1, 7]), apart([2, 0, 0], [0, 2, 0], [0, 0, 2], [5, 5, 5]),
              apart([1, 2, 3], [2, 4, 6], [0, 1, 0], [9, 0, 0]), apart([3, 0, -4], [3, 8, -4], [-3, 0, 4], [10, 2, 1])]
    consts = dict(Quads='{' + ', '.join('<<%s>>' % ', '.join('<<%s>>' % ', '.join(map(str, p)) for p in x) for x in (QUADS[:6] if q else QUADS)) + '}',
                  Rakes='{%s}' % ', '.join(str(4 * r) for r in rakes), Spacings='{7, 20, 25, 100}', Slips=qset(slips), Mechs=qset(mechs), Apart=qset(aparts),
                  Known='{' + ', '.join('"%s"' % k for k, _ in listed) + '}')

    def quad():
        if rnd.random() < 0.15:                  # edges of unlike lengths, a corner off the plane by a few per cent of one of them
            a, b = rnd.choice([(20, 8), (8, 20), (16, 6), (5, 15), (18, 9)])
            w, d, off = rnd.randint(0, 8), rnd.randint(4, 9), rnd.choice([-1, 0, 1])
            x = (a - b) // 2
            t = rnd.choice([lambda p: p, lambda p: [p[1], -p[0], p[2]], lambda p: [-p[0], -p[1], p[2]]])
            return [t(p) for p in ([0, 0, -1], [0, a, -1], [w + rnd.choice([0, off]), x + b, -1 - d + off], [w, x, -1 - d])]
        e, n = rnd.choice([(3, 4), (-4, 3), (0, 5), (5, 0), (-5, 0), (0, -5), (6, 8), (-6, -8), (2, 1), (-1, 3), (rnd.randint(-9, 9), rnd.randint(1, 9))])
        z, h, d = -rnd.randint(0, 6), rnd.choice([0, 1, 1, 2]), rnd.randint(1, 6)
        side = [rnd.choice([1, 1, -1]) * h * n, -h * e, -d]
        if rnd.random() < 0.2:
            side = [rnd.randint(-6, 6), rnd.randint(-6, 6), -d]
            if side[0] * n == side[1] * e and not (side[0] == side[1] == 0):
                side = [0, 0, -d]
        cut = rnd.choice([0, 0, 0, 1]) if max(abs(e), abs(n)) > 3 and e % 2 == 0 and n % 2 == 0 else 0
        b = (e // 2, n // 2) if cut else (e, n)
        off = rnd.choice([0, 0, 0, rnd.choice([-1, 1, 2])]) if d > 2 else 0
        p = [[0, 0, z], [e, n, z], [b[0] + side[0], b[1] + side[1], z - d + off], [side[0], side[1], z - d]]
        return p

    def session():
        calls = []
        for _ in range(rnd.randint(2, 5)):
            calls.append({'op': 'be', 'q': quad()})
            for _ in range(rnd.randint(2, 7)):
                k = rnd.random()
                calls.append({'op': rnd.choice(['normal', 'strike', 'down', 'vertical', 'sizes', 'flat', 'reverse'])} if k < 0.45 else
                             {'op': 'mesh', 'dx': rnd.choice([10, 13, 20, 25, 33, 50, 200])} if k < 0.55 else
                             {'op': 'slipon', 'rake': rnd.randint(-720, 720)} if k < 0.65 else
                             slip(rnd.randint(0, 360), rnd.randint(0, 90), rnd.randint(-180, 180), rnd.choice(['all', 'all', 'ds', 'ss'])) if k < 0.8 else
                             mech(*[rnd.choice([rnd.randint(-1999, 1999), 10 * rnd.randint(-190, 190)])][:rnd.choice([0, 1, 1, 1, 1])]) if k < 0.9 else
                             apart(*[[rnd.randint(-6, 6) for _ in range(3)] for _ in range(4)]))
        return calls

    extra = [{'init': {'q': [[0, 0, -1], [0, 5, -1], [4, 5, -4], [4, 0, -4]]}, 'calls': session(), 'seed': rnd.randrange(1 << 30)} for _ in range(250 if q else 8000)]
    ctx.conform('Planes', 'planes', consts, extra_sessions=extra, canary=canary, variants=2 if q else 4, label='planes')
    for k, what in listed:
        ss = [{'calls': FOUND[k][0], 'seed': 1}]
        recs = ctx.run_code('planes', ss)
        if not recs[0].get('broken'):
            _, rej = tlc.validate(ctx.scratch, 'Planes', [{'init': recs[0]['init'], 'want': recs[0]['init'], 'steps': recs[0]['steps']}], dict(consts, Known='{}'))
            if rej:
                print('KNOWN-FINDING: property=R07 ' + what)
