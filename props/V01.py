"""vectors and earth-centred coordinates"""
import random

from props.R02 import qset


def places(*ps):
    return {'op': 'places', 'ps': [{'lat': a, 'lon': b, 'dep': d} for a, b, d in ps]}


def bearing(p, q):
    return {'op': 'bearing', 'lat1': p[0], 'lon1': p[1], 'lat2': q[0], 'lon2': q[1]}


def canary(s):
    for st in s['steps']:
        if st['c']['op'] == 'mag' and st['r']['ok']:
            st['r']['n'][0] += 1
            return s
    return None


def run(ctx):
    rnd = random.Random('V01/%s' % ctx.seed)
    q = ctx.quick
    vecs = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 2, -2], [-3, 1, 0]] + ([] if q else [[2, 3, 6], [0, -4, 3]])
    pl = [places(*[(a, b, d) for b in (-360, -359, -180, -1, 0, 1, 180, 300, 359, 360)]) for a in (-180, -179, -90, -1, 0, 1, 70, 179, 180) for d in (0, 10, 700, -8)]
    ways = [bearing(p, w) for p, w in (((0, 0), (10, 0)), ((0, 0), (0, 10)), ((0, 0), (-10, -10)), ((20, 350), (10, -350)), ((140, 0), (140, 200)), ((-100, 5), (60, -300)), ((178, 0), (178, 10)))]
    consts = dict(Vecs='{' + ', '.join('<<%s>>' % ', '.join(map(str, v)) for v in vecs) + '}', Nums='{<<>>, <<0>>, <<1>>, <<-1>>, <<2>>}', Places=qset(pl), Ways=qset(ways), Limit='3' if q else '5')

    def session():
        calls, v = [], [0, 0, 0]
        V = lambda: [rnd.randint(-9, 9) for _ in range(3)] if rnd.random() < 0.8 else [rnd.choice([-300, 0, 1, 250]) for _ in range(3)]
        for _ in range(rnd.randint(5, 20)):
            k = rnd.random()
            if k < 0.2:
                v = V()
                calls.append({'op': 'be', 'v': v})
            elif k < 0.45:
                o, w = rnd.choice(['add', 'sub', 'cross']), V()
                n = {'add': [a + b for a, b in zip(v, w)], 'sub': [a - b for a, b in zip(v, w)],
                     'cross': [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]]}[o]
                if rnd.random() < 0.1:
                    calls.append({'op': o, 'v': []})
                elif max(map(abs, n)) < 3000:
                    calls.append({'op': o, 'v': w})
                    v = n
            elif k < 0.55:
                m = rnd.choice([-7, -1, 0, 1, 3, 20])
                if rnd.random() < 0.15:
                    calls.append({'op': 'mul', 'k': []})
                elif max(map(abs, v)) * abs(m) < 3000:
                    calls.append({'op': 'mul', 'k': [m]})
                    v = [m * x for x in v]
            elif k < 0.7:
                calls.append({'op': rnd.choice(['dot', 'distance', 'eq']), 'v': rnd.choice([V(), V(), v, []])})
            elif k < 0.8:
                o = rnd.choice(['mag', 'forms', 'norm'])
                if o != 'norm' or any(v):
                    calls.append({'op': o})
            elif k < 0.9:
                calls.append(places(*[(rnd.choice([-180, 180, 0, rnd.randint(-180, 180)]), rnd.choice([-360, 360, 0, rnd.randint(-360, 360)]), rnd.choice([0, 10, rnd.randint(-100, 700)])) for _ in range(rnd.randint(1, 8))]))
            else:
                p = (rnd.randint(-178, 178), rnd.randint(-360, 360))
                calls.append(bearing(p, (rnd.randint(-178, 178), rnd.randint(-360, 360))))
        return calls

    extra = [{'calls': session(), 'seed': rnd.randrange(1 << 30)} for _ in range(500 if q else 20000)]
    ctx.conform('Vectors', 'vectors', consts, extra_sessions=extra, canary=canary, variants=1 if q else 2, label='vectors')
