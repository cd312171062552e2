"""event validation and the mechanism of an origin"""
import random

NONE = 9999999
REQ = ["id", "netid", "network", "lat", "lon", "depth", "locstring", "mag", "time"]


def tset(xs):
    return '{' + ', '.join('"%s"' % x if isinstance(x, str) else str(x) for x in xs) + '}'


def consts(missing, ids, lats, lons, mechs, types, rakes, sm, sr, sd):
    return {'Missing': tset(missing), 'Ids': tset(ids), 'Lats': tset(lats), 'Lons': tset(lons), 'Mechs': tset(mechs),
            'Types': tset(types), 'Rakes': '{' + ', '.join('<<"%s", %d>>' % k for k in rakes) + '}',
            'SetMechs': tset(sm), 'SetRakes': tset(sr), 'SetDips': tset(sd)}


def canary(s):
    for st in s['steps']:
        if st['r']['ok'] and st['s']['made']:
            st['s']['rake'] += 100
            return s
    return None


def rand(rnd, n):
    out = []
    names = ['SS', 'NM', 'RS', 'ALL']
    for k in range(n):
        calls = []
        for _ in range(rnd.randrange(2, 14)):
            if not calls or rnd.random() < 0.3:
                pick = lambda ok, p, bad: bad() if rnd.random() < p else ok()
                ev = {'missing': pick(lambda: [], 0.1, lambda: rnd.sample(REQ, rnd.randrange(1, 10))),
                      'id': rnd.choice(['str'] * 6 + ['none', 'int']),
                      'lat': pick(lambda: rnd.randint(-9000, 9000), 0.1, lambda: rnd.choice([9001, -9001, rnd.randint(-40000, 40000)])),
                      'lon': pick(lambda: rnd.randint(-18000, 18000), 0.1, lambda: rnd.choice([18001, -18001, rnd.randint(-80000, 80000)])),
                      'mech': rnd.choice(['absent', 'absent', ''] + names + ['XX', 'ss', 'ALL ', ' ', '\t', 'None']),
                      'type': rnd.choice(['absent', 'absent', 'absent', ''] + names + ['XX', ' ', 'rs']),
                      'rk': rnd.choice(['no', 'no', 'num', 'num', 'bad'] if rnd.random() < 0.4 else ['no', 'num']),
                      'rake': rnd.choice([rnd.randint(-40000, 40000), 0, 18000])}
                calls.append({'op': 'new', 'ev': ev})
            else:
                calls.append({'op': 'set', 'mech': rnd.choice(names * 3 + ['rs', 'none', '']),
                              'rake': rnd.choice([NONE, 0, -18000, 18000, 36000, -36000, rnd.randint(-18000, 18000), rnd.randint(-36000, 36000), rnd.randint(-90000, 90000)]),
                              'dip': rnd.choice([NONE, 0, 9000, rnd.randint(0, 9000), rnd.randint(0, 9000), -1, 9001, rnd.randint(-20000, 20000)])})
        out.append({'calls': fix(calls), 'seed': rnd.randrange(1 << 30)})
    return out


def fix(calls):
    """setMechanism needs an origin to act on: start with an event that makes one"""
    ok = {'missing': [], 'id': 'str', 'lat': 100, 'lon': -200, 'mech': 'absent', 'type': 'absent', 'rk': 'no', 'rake': 0}
    return [{'op': 'new', 'ev': ok}] + calls if len(calls) % 2 else calls[:1] + [{'op': 'new', 'ev': ok}] + calls[1:]


def run(ctx):
    rnd = random.Random('R01/%s' % ctx.seed)
    tc = consts([], [], [], [], [], [], [], [], [], [])
    ctx.conform('Origin', 'origin', consts(REQ, ['str', 'none', 'int'], [-9001, -9000, 0, 9000, 9001], [-18001, -18000, 18000, 18001],
                                           ['absent', '', 'SS', 'NM', 'RS', 'ALL', 'XX'], ['absent', '', 'SS', 'NM', 'RS', 'ALL', 'XX'],
                                           [('no', 0), ('num', 0), ('num', -12345), ('num', 30000), ('bad', 0)], [], [], []),
                extra_sessions=rand(rnd, 400 if ctx.quick else 15000), canary=canary, trace_consts=tc, variants=1, label='events')
    names = ['SS', 'NM', 'RS', 'ALL', 'none', 'rs']
    for rakes, dips, what in (([NONE, 0, -18000, -18001, 18000, 18001, 36000, -36000, 36001, 54000, 54001, -54001, 1234], [NONE], 'rake'),
                              ([NONE], [NONE, 0, -1, 9000, 9001, 4321], 'dip'), ([100, 54001], [200, -1], 'both')):
        ctx.conform('Origin', 'origin', consts([], [], [], [], ['absent', 'RS'], ['absent'], [('no', 0), ('num', 100)], names, rakes, dips),
                    canary=canary, trace_consts=tc, label='setMechanism ' + what)
