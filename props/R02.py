"""event.xml and source.txt"""
import random

NONE = 9999999


def q(x):
    """a Python value as a TLA+ expression"""
    if isinstance(x, bool):
        return 'TRUE' if x else 'FALSE'
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, int):
        return str(x)
    if isinstance(x, set):
        return '{' + ', '.join(q(v) for v in sorted(x)) + '}'
    if isinstance(x, (list, tuple)):
        return '<<' + ', '.join(q(v) for v in x) + '>>'
    return '[' + ', '.join('%s |-> %s' % (k, q(v)) for k, v in x.items()) + ']'


def qset(xs):
    return '{' + ', '.join(q(x) for x in xs) + '}'


PLAIN = {'lat': 3412345 - 1, 'lon': -11837658, 'depth': 1902, 'mag': 679, 't': [2008, 5, 12, 6, 28, 1, 500000], 'id': 'a', 'netid': 'b',
         'network': 'c', 'loc': 'd', 'mech': 'absent', 'ref': 'absent', 'pc': 'absent', 'etype': 'absent'}
HAND = {'there': True, 'lat': 3412340, 'lon': -11837, 'depth': 1900, 'mag': 790, 't': [2008, 5, 12, 6, 28, 1, 0], 'id': 'a', 'netid': 'b',
        'network': 'c', 'loc': 'd', 'mech': 'absent', 'type': 'absent', 'ref': 'absent', 'pc': 'absent', 'etype': 'absent', 'form': 'sec', 'lacks': set()}


def lacking(f, keys):
    f = dict(f, lacks=set(keys))
    for k in keys:
        k2 = 'loc' if k == 'locstring' else k
        f[k2] = 0 if k in ('lat', 'lon', 'depth', 'mag') else 'absent'
    return f


def src(*kv):
    return [{'k': k, 'v': v} for k, v in kv]


def canary(s):
    for st in s['steps']:
        if st['r']['ok'] and st['c']['op'] == 'read':
            st['r']['v']['lat'] += 10
            return s
    return None


def randtime(r, us):
    y = r.choice([r.randint(1, 9999), r.randint(1, 999), r.randint(1800, 2030), 1899, 1900, 2000])
    m = r.randint(1, 12)
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    d = r.randint(1, [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1])
    return [y, m, d, r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), us]


def unround(r, lo, hi):
    while True:
        v = r.choice([r.randint(lo, hi), r.randint(-200, 200), lo, hi])
        if v % 10 != 5:
            return max(v, lo)


def rand(r, n):
    out = []
    toks = list('abcdefghijklm') + ['empty']
    for _ in range(n):
        calls = []
        for _ in range(r.randrange(2, 12)):
            opt = lambda: r.choice(['absent'] + toks)
            mech = r.choice(['absent', 'empty', 'SS', 'NM', 'RS', 'ALL', 'XX'])
            base = {'lat': unround(r, -9000000, 9000000), 'lon': unround(r, -18000000, 18000000), 'depth': unround(r, -500, 70000),
                    'mag': unround(r, -100, 1000), 'id': r.choice(toks), 'netid': r.choice(toks), 'network': r.choice(toks),
                    'loc': r.choice(toks), 'mech': mech, 'ref': opt(), 'pc': opt()}
            k = r.random()
            via = r.choice(['path', 'object'])
            s = []
            for _ in range(r.randrange(5)):
                key = r.choice(['lat', 'lon', 'depth', 'mag', 'rake', 'netid', 'network', 'loc', 'mech', 'ref', 'pc'])
                s.append((key, {'lat': r.randint(-9100000, 9100000), 'lon': r.randint(-18000000, 18000000), 'mech': r.choice(['SS', 'RS', 'NM', 'ALL', 'XX', 'empty'])}.get(
                    key, r.choice([r.randint(-99900, 99900), r.randint(-9, 9) * 100]) if key in ('depth', 'mag', 'rake') else r.choice(list('abcdefgh') + ['empty']))))
            if k < 0.25:
                e = dict(base, t=randtime(r, r.choice([0, 1, 999999, 500000])), etype=r.choice(['absent', 'ACTUAL', 'SCENARIO', 'TEST', 'empty']))
                calls.append({'op': 'write', 'e': e, 'bad': r.choice([''] * 6 + ['missing', 'control', 'nodir', 'kind'])})
            elif k < 0.45:
                form = r.choice(['sec', 'frac', 'parts', 'sec', 'frac', 'bad', 'none'])
                f = dict(base, there=True, t=[0] * 7 if form in ('bad', 'none') else randtime(r, r.choice([1, 999999, 120000]) if form == 'frac' else 0),
                         type='absent', etype='absent', form=form)
                if mech == 'absent':
                    f['type'] = r.choice(['absent', 'SS', 'RS', 'XX', 'empty'])
                f['lacks'] = []
                if r.random() < 0.15:
                    ks = r.sample(['id', 'netid', 'lat', 'lon', 'depth', 'mag', 'locstring'], r.randrange(1, 3))
                    f = lacking(f, ks)
                    f['lacks'] = ks
                if r.random() < 0.2:
                    f['network'] = 'absent'
                calls.append({'op': 'hand', 'f': f})
            elif k < 0.7:
                calls.append({'op': 'read', 'via': via})
            elif k < 0.8:
                calls.append({'op': 'source', 'via': via, 'src': src(*s)})
            else:
                calls.append({'op': 'origin', 'via': via, 'src': src(*s)})
        if calls[0]['op'] == 'read':
            calls = calls[1:] + calls[:1]
        for c in calls:
            if c['op'] == 'write' and c['bad'] == 'nodir':
                c['e'] = dict(PLAIN, etype='absent')
        out.append({'calls': noread(calls), 'seed': r.randrange(1 << 30)})
    return out


def noread(calls):
    """an object to read can only be opened when there is a file"""
    out, there = [], False
    for c in calls:
        if c['op'] == 'hand' or (c['op'] == 'write' and not c['bad'] and c['e']['etype'] in ('absent', 'ACTUAL', 'SCENARIO')):
            there = True
        if not there and c.get('via') == 'object':
            c = dict(c, via='path')
        out.append(c)
    return out


def run(ctx):
    rnd = random.Random('R02/%s' % ctx.seed)
    P = lambda **k: dict(PLAIN, **k)
    H = lambda **k: dict(HAND, **k)
    writes = [(P(), b) for b in ('', 'missing', 'control', 'nodir', 'kind')] + \
        [(P(mech='RS', ref='e', pc='f', etype='SCENARIO', t=[899, 2, 28, 23, 59, 59, 999999]), ''),
         (P(lat=-9000000, lon=18000000, depth=-4, mag=0, etype='ACTUAL', mech='empty', network='empty'), ''),
         (P(lat=9000000, lon=-18000000, depth=4, mag=-17, etype='TEST', id='i', t=[1, 1, 1, 0, 0, 0, 0]), ''),
         (P(lat=-4, lon=6, id='i', netid='j', loc='k', ref='empty', pc='l', mech='XX', t=[1896, 2, 29, 12, 0, 0, 1]), '')]
    hands = [H(), H(form='frac', t=[1906, 4, 18, 13, 12, 21, 120000], mech='RS'), H(form='parts', network='absent', type='NM'),
             H(form='bad', t=[0] * 7), H(form='none', t=[0] * 7), lacking(HAND, ['mag']), lacking(HAND, ['id', 'locstring']),
             H(pc='e', lat=9100000, type='SS')]
    sources = [src(('mech', 'RS')), src(('lat', 1250000), ('mag', 600), ('loc', 'e'), ('rake', 4500)), src(('mag', 600), ('mag', 650), ('ref', 'f'), ('netid', 'empty')),
               src(('mech', 'XX')), src(('lat', 9100000), ('depth', -150), ('pc', 'g'))]
    C = lambda w, h, s: {'Writes': qset(w), 'Hands': qset(h), 'Sources': qset(s), 'Base': '0'}
    tc = C([], [], [])
    ctx.conform('EventFile', 'eventfile', C(writes, hands, sources), extra_sessions=rand(rnd, 500 if ctx.quick else 20000), canary=canary,
                trace_consts=tc, variants=2 if ctx.quick else 6,
                concretise=lambda s: dict(s, calls=noread(s['calls'])))
