"""lists of cities"""
import random

from props.R02 import q, qset

NONE = 9999999
CHARS = [' ', '"', "'", ',', '.', '0', '1', '7', 'A', 'B', 'L', 'N', 'S', 'T', 'U', 'a', 'd', 'n', 'o', 't']
NAMES = ['San Bo', 'San To', 'Son', 'S.t', 'St. And', 'NA', 'nan', 'NULL', '1770', '007', 'A, B', 'No "t"', "d'Anton", 'Band', 'Banda', 'N', 'ton']
NAMES = [n for n in NAMES if all(c in CHARS for c in n)]
ALLCOLS = ['name', 'ccode', 'lat', 'lon', 'iscap', 'pop']


def row(n, lat, lon, pop=-1, cap=-1, cc='-'):
    return {'n': list(n), 'lat': lat, 'lon': lon, 'pop': pop, 'cap': cap, 'cc': cc, 'x': NONE, 'y': NONE}


def make(cols, rows, how='df'):
    out = []
    for r in rows:
        r = dict(r)
        if 'pop' not in cols:
            r['pop'] = -1
        if 'iscap' not in cols:
            r['cap'] = -1
        if 'ccode' not in cols:
            r['cc'] = '-'
        out.append(r)
    return {'op': 'make', 'cols': list(cols), 'rows': out, 'how': how}


def geo(lines, down=False):
    return {'op': 'geonames', 'lines': [dict(zip(('n', 'lat', 'lon', 'fc', 'cc', 'pop'), (list(l[0]),) + tuple(l[1:]))) for l in lines], 'down': down}


def pat(body, head=False, tail=False):
    return {'op': 'name', 'body': list(body), 'head': head, 'tail': tail}


def canary(s):
    for st in s['steps']:
        if st['c']['op'] == 'look' and st['r']['ok']:
            st['r']['len'] += 1
            return s
    return None


def rand_rows(r, k):
    out, spots = [], []
    style = r.choice(['far', 'near', 'line', 'date'])
    c = (r.randint(-150, 150), r.randint(-340, 340))
    for _ in range(k):
        if spots and r.random() < 0.1:
            lat, lon = r.choice(spots)
        elif style == 'far':
            lat, lon = r.randint(-180, 180), r.randint(-360, 360)
        elif style == 'near':
            lat, lon = c[0] + r.randint(-6, 6), c[1] + r.randint(-6, 6)
        elif style == 'line':
            lat, lon = c[0], c[1] + r.randint(-8, 8)
        else:
            lat, lon = c[0] + r.randint(-4, 4), r.choice([-1, 1]) * r.randint(352, 360)
        spots.append((lat, lon))
        out.append(row(r.choice(NAMES), lat, lon, r.choice([0, 1, 999, 1000, 1001, 1770, r.randrange(10 ** 6), r.randrange(2000), 24874501, 37400068]), r.randint(0, 1), r.choice(['US', 'NA', 'NO', 'JP'])))
    return out


def rand_filter(r, rows):
    k = r.randrange(9)
    at = r.choice(rows) if rows else row('N', 0, 0)
    lat, lon = at['lat'], at['lon']
    if k == 0:
        w, s = lon - r.choice([0, 1, 3, 30]), lat - r.choice([0, 1, 3, 30])
        return {'op': 'bounds', 'b': [w, w + r.choice([0, 1, 3, 9, 60]), s, s + r.choice([0, 1, 3, 9, 60])]}
    if k == 1:
        return {'op': 'radius', 'lat': max(-180, min(180, lat + r.randint(-3, 3))), 'lon': max(-360, min(360, lon + r.randint(-5, 5))), 'k': r.choice([1, 2, 3, 5, 8, 20, 100, 180, 359])}
    if k == 2:
        p = r.choice([at['pop'], at['pop'] + 1, 1000, 1770])
        return {'op': 'population', 'pop': max(p, 0), 'minpop': r.choice([0, 0, 0, 1000, p - 1, p])}
    if k == 3:
        return {'op': 'grid', 'nx': r.choice([1, 2, 2, 3, 7]), 'ny': r.choice([1, 2, 2, 4, 5]), 'n': r.choice([1, 1, 2, 3, 20])}
    if k == 4:
        n = ''.join(at['n'])
        a = r.randrange(len(n))
        b = r.randint(a + 1, len(n))
        body = n[a:b]
        if r.random() < 0.3:
            j = r.randrange(len(body))
            body = body[:j] + '.' + body[j + 1:]
        return pat(body, r.random() < 0.3, r.random() < 0.3)
    if k == 5:
        by = r.sample(['lat', 'lon', 'pop', 'name', 'iscap'], r.choice([1, 1, 2, 3]))
        if r.random() < 0.1:
            by[-1] = r.choice(['nosuch', 'l', 'at'])
        return {'op': 'sort', 'by': by, 'asc': r.random() < 0.6}
    return {'op': r.choice(['reload', 'look', 'look', 'spoil', 'project']) if k == 6 else r.choice(['look', 'reload', 'look'])}


def sessions(r, n):
    out = []
    for _ in range(n):
        calls, rows = [], []
        for _ in range(r.randint(1, 3)):
            rows = rand_rows(r, r.choice([0, 1, 2, 3, 5, 8, 12]))
            k = r.random()
            if k < 0.3 and rows:
                lines = [(x['n'], x['lat'], x['lon'], r.choice(['PPL', 'PPLC', 'PPLA', 'PPLA2', 'PPLX']), x['cc'], x['pop']) for x in rows]
                for _ in range(r.choice([0, 0, 1, 2])):
                    lines.insert(r.randrange(len(lines) + 1), (r.choice([[], [' '], ['S', "e'"], ["e'"], [' ', 'N', ' ']]), 1, 1, 'PPLC', 'US', 5000))
                calls.append(geo(lines, r.random() < 0.3))
            else:
                cols = ['name', 'lat', 'lon'] + [c for c in ('pop', 'iscap', 'ccode') if r.random() < 0.7]
                r.shuffle(cols)
                if r.random() < 0.06:
                    cols.remove(r.choice(['name', 'lat', 'lon']))
                calls.append(make(cols, rows, r.choice(['df', 'df', 'csv'])))
            for _ in range(r.randint(2, 9)):
                calls.append(rand_filter(r, rows))
        out.append({'calls': calls, 'seed': r.randrange(1 << 30)})
    return out


def run(ctx):
    rnd = random.Random('M01/%s' % ctx.seed)
    a = [row('San Bo', 66, -236, 40000, 1, 'US'), row('San To', 68, -238, 9000, 0, 'US'), row('NA', 70, -240, 9000, 0, 'NA'), row('1770', 68, -234, 500, 0, 'NO'), row('Son', 67, -239, 500, 0, 'US')]
    makes = [make(ALLCOLS, a), make(['lon', 'name', 'lat'], a[:3], 'csv'), make(['name', 'lon', 'pop'], a), make(['name', 'lat', 'lon', 'pop'], []), geo([(x['n'], x['lat'], x['lon'], 'PPLC', 'US', x['pop']) for x in a[:2]] + [([], 0, 0, 'PPL', 'US', 3)], True)]
    filters = [{'op': 'bounds', 'b': [-240, -235, 66, 68]}, {'op': 'radius', 'lat': 68, 'lon': -237, 'k': 3}, {'op': 'population', 'pop': 9000, 'minpop': 0}, {'op': 'population', 'pop': 5, 'minpop': 5},
               {'op': 'grid', 'nx': 2, 'ny': 2, 'n': 1}, {'op': 'grid', 'nx': 1, 'ny': 3, 'n': 20}, pat('San'), pat('o', tail=True), pat('nan'),
               {'op': 'sort', 'by': ['pop', 'lat'], 'asc': True}, {'op': 'sort', 'by': ['name'], 'asc': False}, {'op': 'sort', 'by': ['lat', 'x0'], 'asc': True},
               {'op': 'reload'}, {'op': 'look'}, {'op': 'spoil'}, {'op': 'project'}]
    ctx.conform('Cities', 'cities', dict(Makes=qset(makes), Filters=qset(filters), Chars=q([c.replace('"', '\\"') for c in CHARS])), extra_sessions=sessions(rnd, 600 if ctx.quick else 20000),
                canary=canary, variants=1 if ctx.quick else 3, label='cities')
