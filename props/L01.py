"""maps with city labels"""
import random

from props.R02 import qset

NAMES = ['Ur', 'Bo', 'Nome', 'Lima', 'Quito', 'Accra', 'Caracas', 'Kathmandu', 'San Francisco', 'Petropavlovsk', 'Llanfairpwllgwyngyll']


def city(name, lon, lat, pop):
    return {'name': name, 'lon': lon, 'lat': lat, 'pop': pop}


def a_map(x0, x1, y0, y1, cities, pad=25):
    return {'x0': x0, 'x1': x1, 'y0': y0, 'y1': y1, 'pad': pad, 'cities': cities}


def draw(font='sans', size=10, shadow=False, dots=False):
    return {'op': 'draw', 'font': font, 'size': size, 'shadow': shadow, 'dots': dots}


def canary(s):
    for st in s['steps']:
        if st['r']['ok'] and st['r'].get('labels'):
            st['r']['labels'][0]['l'] += 60
            return s
    return None


def run(ctx):
    rnd = random.Random('L01/%s' % ctx.seed)
    q = ctx.quick
    maps = [a_map(-480, -460, 130, 146, [city('Caracas', -470, 138, 900), city('Lima', -469, 138, 100), city('Quito', -478, 131, 50)]),
            a_map(-480, -460, 130, 146, [city('San Francisco', -461, 138, 900), city('Nome', -466, 138, 100), city('Ur', -470, 146, 7), city('Bo', -500, 138, 5000)]),
            a_map(-20, 20, -30, 30, [city('San Francisco', 19, 0, 5), city('Nome', 25, 0, 9)], 0)]
    draws = [draw(), draw('serif', 24, True), draw('mono', 6, dots=True), draw('none')]
    consts = dict(Maps=qset(maps), Draws=qset(draws), Limit='3' if q else '5')

    def one_map():
        w = rnd.choice([8, 16, 24, 40, 120])
        h = rnd.choice([8, 16, 24, 40, 100])
        x0 = rnd.randint(-720, 720 - w)
        y0 = rnd.randint(-270, 290 - h)
        n = rnd.choice([0, 1, 2, 5, 9, 14, 30, 70])
        near = rnd.random() < 0.3
        cs = []
        for k in range(n):
            lon, lat = rnd.randint(x0 - 2, x0 + w + 2), rnd.randint(y0 - 2, y0 + h + 2)
            if near:
                lon, lat = (lon + x0) // 2, (lat + y0 + h // 2) // 2
            lon, lat = max(-720, min(lon, 720)), max(-290, min(lat, 290))
            if any((p['lon'], p['lat']) == (lon, lat) for p in cs) and rnd.random() < 0.8:
                continue
            cs.append(city(rnd.choice(NAMES) + ' %d' % k, lon, lat, rnd.choice([rnd.randint(1, 10), rnd.randint(0, 1000000)])))
        return a_map(x0, x0 + w, y0, y0 + h, cs, rnd.choice([25, 25, 0, 50, 100]))

    def wide_map():
        # small labels far apart, so that it is the limit on each quarter that leaves cities out
        x0, y0 = rnd.randint(-720, 600), rnd.randint(-150, 50)
        spots = [(i, j) for i in range(9) for j in range(12)]
        rnd.shuffle(spots)
        k = rnd.random()
        if k < 0.3:
            spots = [p for p in spots if p[1] < 6] + [p for p in spots if p[1] >= 6][:6]
        elif k < 0.6:
            spots = [p for p in spots if p[0] < 4] + [p for p in spots if p[0] >= 4][:6]
        elif k < 0.8:
            spots = spots[:rnd.randint(20, 80)]
        cs = [city('Ur %d' % k, x0 + 2 + 12 * i + rnd.randint(0, 3), y0 + 3 + 8 * j + rnd.randint(0, 1), rnd.randint(0, 1000000)) for k, (i, j) in enumerate(spots)]
        return a_map(x0, x0 + 120, y0, y0 + 100, cs, rnd.choice([0, 25]))

    def wide():
        calls = [{'op': 'open', 'map': wide_map()}]
        for _ in range(rnd.choice([1, 2])):
            calls.append(draw('sans', rnd.choice([6, 6, 4]), False, rnd.random() < .3))
        return calls

    def session():
        calls = []
        for _ in range(rnd.choice([1, 1, 2])):
            calls.append({'op': 'open', 'map': one_map()})
            for _ in range(rnd.choice([1, 1, 2, 3])):
                calls.append(draw(rnd.choice(['sans', 'sans', 'serif', 'mono', 'none']), rnd.choice([10, 10, 6, 8, 14, 30]), rnd.random() < .5, rnd.random() < .5))
        return calls

    extra = [{'calls': session(), 'seed': rnd.randrange(1 << 30)} for _ in range(160 if q else 3000)]
    extra += [{'calls': wide(), 'seed': rnd.randrange(1 << 30)} for _ in range(12 if q else 300)]
    ctx.conform('CityMap', 'citymap', consts, extra_sessions=extra, canary=canary, variants=1, label='city labels')
