"""what the web services say"""
import random

from props.R02 import q, qset

GEOS = [{'places': ['Oakhurst', 'Mariposa'], 'keys': ['admin', 'fe'], 'auth': ['NC', 'anss'], 'meta': True},
        {'places': [], 'keys': ['fe'], 'auth': [], 'meta': True},
        {'places': ['Mariposa', 'Numata', 'Numata'], 'keys': ['fe'], 'auth': ['UW', ''], 'meta': True},
        {'places': ['Numata'], 'keys': ['admin', 'fe', 'neicresponse', 'timezone'], 'auth': ['', 'contributor'], 'meta': False}]


def event(ident, ids, sources, days, secs, ms, lat, lon, depth, mag, place, tsunami=0, shake=True, ask=None):
    c = list
    return {'id': c(ident), 'ids': [c(i) for i in ids], 'sources': [c(s) for s in sources], 'days': days, 'secs': secs, 'ms': ms, 'lat': lat, 'lon': lon, 'depth': depth, 'mag': mag,
            'place': place, 'tsunami': tsunami, 'url': 'https://earthquake.usgs.gov/earthquakes/eventpage/' + ident, 'shake': shake, 'ask': c(ask or ident)}


EVENTS = [event('at1234', ['ci2008', 'at1234', 'atlas4567'], ['atlas', 'ci', 'at'], 16000, 86399, 999, 372, -1195, 100, 51, '24km NE of Dharchula, India', 1),
          event('us200063en', ['us200063en'], ['us'], 0, 0, 0, -5, 1799, 0, 0, '', 0, shake=False, ask='ci37374687'),
          event('nc72', ['nc72', 'us1', 'us2', 'u3', 'usc4'], ['us', 'nc', 'u', 'usc'], 17325, 3600 * 8, 40, 379, -1222, -12, -3, 'San Francisco', 0)]


def geo(k, lat=3720000, lon=-11950000, radius=0, pop=0, places=('ok',), regions=('ok',)):
    return {'op': 'geo', 'data': k, 'lat': lat, 'lon': lon, 'radius': radius, 'pop': pop, 'places': list(places), 'regions': list(regions)}


def info(k, *answers):
    return {'op': 'info', 'data': k, 'answers': list(answers or ('ok',))}


def grid(to, *answers):
    return {'op': 'grid', 'to': to, 'answers': list(answers or ('ok',))}


def canary(s):
    for st in s['steps']:
        if st['c']['op'] == 'info' and st['r']['ok']:
            st['r']['log'].append(st['r']['log'][0])
            return s
    return None


PLAIN = ['places', 'regions', 'authority', 'ids', 'sources', 'params', 'place', 'tsunami', 'url']


def some_event(r):
    net = r.sample(['us', 'ci', 'nc', 'at', 'atlas', 'u', 'usc', 'c', 'pt', 'iscgem'], r.randint(1, 5))
    ids = []
    for s in net * r.choice([1, 1, 2, 3]):
        i = s + ''.join(r.choice('0123456789x') for _ in range(r.randint(1, 4)))
        if r.random() < 0.25:
            i = s + r.choice('0123456789') + r.choice(['atlas', 'ci', 'usc1', 'us', 'iscgem'])
        elif r.random() < 0.2 and ids:
            i = r.choice(ids) + '0'
        if i not in ids:
            ids.append(i)
    r.shuffle(ids)
    ms = r.choice([0, 1, 40, 500, 999])
    return event(r.choice(ids), ids, net, r.randint(0, 20000), r.choice([0, 1, 86399, r.randint(0, 86399)]), ms, r.randint(-900, 900), r.randint(-1800, 1800), r.randint(-30, 7000), r.randint(-10, 95),
                 r.choice(['', 'a place', '5 km S of Santiago']), r.choice([0, 1]), r.random() < 0.7, r.choice(ids))


def run(ctx):
    rnd = random.Random('Q01/%s' % ctx.seed)
    A = ['ok', '503', '404', '500', 'down', 'cut', 'garbled', '429', 'timeout']
    quick = ctx.quick
    bad = [('503', 'ok'), ('503', '503', 'ok'), ('503', '404'), ('503', 'cut'), ('503', 'garbled'), ('404',), ('500', 'ok'), ('down',), ('cut',), ('garbled',), ('502', '503', 'ok')]
    makes = [geo(1), geo(2, -50001, 18000000, 1000, 50000), geo(3, 0, -1, 5, 1)] + [geo(1, places=a) for a in bad] + [geo(2, regions=a) for a in bad]
    makes += [geo(2, places=('503', 'ok'), regions=('503', 'ok')), geo(3, places=('404',), regions=('503', '503'))]
    makes += [info(k) for k in (1, 2, 3)] + [info(1, *a) for a in bad]
    asks = [{'op': o} for o in PLAIN] + [grid(t) for t in ('none', 'file', 'nowhere')] + [grid('file', *a) for a in bad]

    def world():
        e = EVENTS + [some_event(rnd) for _ in range(24)]
        return GEOS, e

    def session(events):
        calls, g, i = [], 0, 0
        for _ in range(rnd.randint(4, 16)):
            k = rnd.random()
            ans = lambda: [rnd.choice(['ok', 'ok', 'ok', '503'] + A) for _ in range(rnd.randint(1, 3))]
            if k < 0.12 or (k < 0.3 and not g):
                p, q_ = ans(), ans()
                calls.append(geo(rnd.randint(1, 4), rnd.choice([rnd.randint(-9000000, 9000000), 100000 * rnd.randint(-90, 90)]), rnd.choice([rnd.randint(-18000000, 18000000), 10000 * rnd.randint(-1800, 1800)]), rnd.choice([0, 10, 500, 625, 8000]), rnd.choice([0, 1, 50000]), p, q_))
                g = g or (p[0] == 'ok' or p[:2] == ['503', 'ok']) and (q_[0] == 'ok' or q_[:2] == ['503', 'ok'])
            elif k < 0.24 or (k < 0.6 and not i):
                a = ans()
                calls.append(info(rnd.randint(1, len(events)), *a))
                i = i or a[0] == 'ok' or a[:2] == ['503', 'ok']
            elif k < 0.4 and i:
                calls.append(grid(rnd.choice(['none', 'file', 'file', 'nowhere']), *ans()))
            else:
                o = rnd.choice(PLAIN + ['ids', 'sources', 'sources'])
                if g if o in PLAIN[:3] else i:
                    calls.append({'op': o})
        if i:
            calls += [{'op': 'sources'}, {'op': 'ids'}]
        return calls

    geos, events = world()
    consts = dict(Makes=qset(makes), Asks=qset(asks), Geos=q(geos), Events=q(events))
    n = 300 if quick else 12000
    w = {'geos': geos, 'events': events}
    extra = [{'calls': session(events), 'seed': rnd.randrange(1 << 30), 'init': {'geo': 0, 'info': 0, 'file': rnd.choice([0, 1])}, 'consts': w} for _ in range(n)]
    ctx.conform('ComCat', 'comcat_', consts, extra_sessions=extra, canary=canary, variants=1 if quick else 6, concretise=lambda s: dict(s, consts=w), label='comcat')
