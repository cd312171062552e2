"""local times"""
import random

from props.R02 import qset

OWN = [(158, -420), (-34, 120), (140, 558), (84, -630), (195, 10), (-5, 147), (162, -296), (-132, 600), (112, 340)]
ZONES = ['UTC', 'ET', 'MT', 'HT', 'CET', 'IST', 'NPT', 'JST', 'SAST', 'AET', 'W5', 'E3', 'P9']
# around the changes to and from summer time
TIMES = [[2021, 3, 14, 2, 30], [2021, 3, 14, 6, 59], [2021, 3, 14, 7, 0], [2021, 11, 7, 1, 30], [2021, 11, 7, 5, 59], [2021, 11, 7, 6, 0], [2020, 3, 29, 0, 59], [2020, 3, 29, 1, 0],
         [2020, 3, 29, 2, 30], [2019, 10, 27, 0, 30], [2019, 10, 27, 1, 0], [2016, 4, 2, 15, 59], [2016, 4, 2, 16, 0], [2016, 10, 1, 16, 0], [2016, 10, 2, 2, 30], [2015, 12, 31, 23, 30],
         [2016, 2, 29, 20, 0], [2016, 7, 1, 0, 0], [2016, 8, 1, 20, 23], [2021, 3, 14, 8, 59], [2021, 3, 14, 9, 0], [2021, 11, 7, 8, 0], [2021, 11, 7, 7, 59]]


def themap(zones, at, own=False):
    return {'op': 'map', 'own': own, 'zones': [{'tz': t, 'box': list(b)} for t, b in zones], 'at': list(at)}


def raster(left, top, res, cells, cross=False, lacks=''):
    return {'op': 'raster', 'ras': {'left': left, 'top': top, 'res': res, 'cells': cells, 'cross': cross}, 'lacks': lacks}


def look(what, lat, lon, how='floor', t=TIMES[0]):
    return {'op': 'look', 'what': what, 'lat': lat, 'lon': lon, 'how': how, 't': t}


def canary(s):
    for st in s['steps']:
        if st['c']['op'] in ('map', 'ask') and st['r']['ok']:
            st['r']['off'] += 60
            return s
    return None


def rand_time(r):
    if r.random() < 0.6:
        t = list(r.choice(TIMES))
        t[0] = r.choice([t[0], r.randint(2010, 2035)])
        if t[1:3] == [2, 29]:
            t[0] = 2016
        return t
    return [r.randint(2009, 2035), r.randint(1, 12), r.randint(1, 28), r.randrange(24), r.randrange(60)]


def rand_map(r):
    if r.random() < 0.5:
        return []
    out, x0, y0 = [], r.choice([-170, -75, 0, 10, 130, 160, -180, 172, 177, -187]), r.choice([-50, -20, 5, 35, 55])
    for _ in range(r.randint(1, 6)):
        w, s = x0 + r.randint(0, 8), y0 + r.randint(0, 8)
        out.append((r.choice(ZONES), (w, w + r.randint(1, 6), s, s + r.randint(1, 5))))
    return out


def rand_place(r, zones):
    while True:
        if zones and r.random() < 0.8:
            b = r.choice(zones)[1]
            lat, lon = 4 * r.randint(b[2], b[3]) + r.randint(1, 3), 4 * r.randint(b[0], b[1]) + r.randint(1, 3)
        else:
            lat, lon = r.randint(-340, 340), r.randint(-719, 719)
        if lon % 60 != 30 and lon % 4 and lat % 4 or not zones and lon % 60 != 30:
            return lat, lon


def rand_raster(r):
    rows, cols, res = r.randint(1, 5), r.randint(1, 6), r.choice([1, 2, 4, 8, 40])
    cells = [[r.choice(ZONES) for _ in range(cols)] for _ in range(rows)]
    cross = cols >= 2 and r.random() < 0.4
    w = cols * res
    left = 720 - r.randint(1, w - 1) if cross else r.choice([-720, 0, -300, 720 - w])
    return raster(left, r.choice([332, 40, 0]), res, cells, cross, r.choice([''] * 12 + ['raster_shape', 'extents', 'resolution', 'timezone_coding']))


def sessions(r, n):
    out = []
    for _ in range(n):
        calls, zones, ras = [], None, None
        for _ in range(r.randint(4, 16)):
            k = r.random()
            if zones is None and ras is None or k < 0.1:
                if r.random() < 0.4:
                    zones = rand_map(r)
                    calls.append(themap(zones, list(rand_place(r, zones)) + [rand_time(r)]))
                else:
                    c = rand_raster(r)
                    calls.append(c)
                    ras = c['ras'] if not c['lacks'] else ras
            elif zones is not None and (k < 0.5 or ras is None):
                if r.random() < 0.8:
                    place, t = list(rand_place(r, zones)), rand_time(r)
                    was = [c['at'] for c in calls if 'at' in c][-1]
                    if r.random() < 0.4:
                        place = was[:2]
                        if r.random() < 0.5:
                            t = was[2][:3] + t[3:]
                    elif r.random() < 0.3:
                        t = was[2]
                    calls.append({'op': 'update', 'at': place + [t]})
                if r.random() < 0.4:
                    calls.append({'op': 'ask'})
            elif ras is not None:
                w, h = len(ras['cells'][0]) * ras['res'], len(ras['cells']) * ras['res']
                lon = ras['left'] + r.randint(-3, w + 3) if r.random() < 0.8 else r.randint(-720, 720)
                lat = ras['top'] - r.randint(-3, h + 3) if r.random() < 0.8 else r.randint(-360, 360)
                if lon > 720 or (lon == 720 and ras['cross'] and r.random() < 0.5):
                    lon -= 1440
                if lon < -720:
                    lon += 1440
                calls.append(look(r.choice(['code', 'local', 'utc']), lat, lon, r.choice(['floor', 'ceil', 'round'] * 8 + ['nearest']), rand_time(r)))
        out.append({'calls': calls, 'seed': r.randrange(1 << 30)})
    return out


def own(r, n):
    out = []
    for _ in range(n):
        calls = [themap([], list(r.choice(OWN)) + [rand_time(r)], True)]
        for _ in range(3):
            calls += [{'op': 'ask'}, {'op': 'update', 'at': list(r.choice(OWN)) + [rand_time(r)]}]
        out.append({'calls': calls + [{'op': 'ask'}], 'seed': r.randrange(1 << 30)})
    return out


def run(ctx):
    rnd = random.Random('H02/%s' % ctx.seed)
    two = [('ET', (-80, -74, 38, 42)), ('AET', (-76, -70, 39, 45))]
    maps = [themap(two, [161, -302, TIMES[0]]), themap([], [0, 100, TIMES[5]])]
    rasters = [raster(-720, 332, 40, [['UTC', 'ET'], ['CET', 'IST']]), raster(700, 20, 10, [['NPT', 'AET', 'W5', 'HT']], True)] + \
        [raster(0, 0, 4, [['UTC']], lacks=k) for k in ('raster_shape', 'extents', 'resolution', 'timezone_coding')]
    places = [{'op': 'update', 'at': [lat, lon, t]} for lat, lon in ((161, -302), (161, -317), (178, -283), (0, 719)) for t in TIMES[:6]]
    looks = [look(w, lat, lon, how, t) for w in ('code', 'local', 'utc') for lat, lon in ((332, -720), (300, -690), (15, 710), (12, -715), (-300, 0))
             for how in ('floor', 'ceil', 'round') for t in TIMES[2:5]] + [look('code', 0, 0, 'up')]
    consts = lambda **kw: dict({k: qset([]) for k in ('Maps', 'Rasters', 'Places', 'Lookups')}, **{k: qset(v) for k, v in kw.items()})
    ctx.conform('TimeZone', 'timezone_', consts(Maps=maps, Places=places), extra_sessions=sessions(rnd, 250 if ctx.quick else 6000) + own(rnd, 6 if ctx.quick else 120),
                canary=canary, label='maps')
    ctx.conform('TimeZone', 'timezone_', consts(Rasters=rasters, Lookups=looks), extra_sessions=sessions(rnd, 250 if ctx.quick else 6000), variants=1 if ctx.quick else 3, label='rasters')
