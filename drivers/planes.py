import copy
import math
import random

import numpy as np

from drivers.common import exc_kind
from impactutils.rupture import utils
from impactutils.vectorutils.vector import Vector
from openquake.hazardlib.geo.point import Point

A, E2 = 6378137.0, 8.1819190842622e-2 ** 2
ODD = 8888888


class Place(object):
    """east, north and up (km) from a place on the earth"""

    def __init__(self, lat, lon):
        self.lon = lon
        a, o = math.radians(lat), math.radians(lon)
        n = A / math.sqrt(1 - E2 * math.sin(a) ** 2)
        self.o = np.array([n * math.cos(a) * math.cos(o), n * math.cos(a) * math.sin(o), n * (1 - E2) * math.sin(a)])
        self.m = np.array([[-math.sin(o), math.cos(o), 0], [-math.sin(a) * math.cos(o), -math.sin(a) * math.sin(o), math.cos(a)],
                           [math.cos(a) * math.cos(o), math.cos(a) * math.sin(o), math.sin(a)]])

    def ecef(self, p):
        return self.o + self.m.T @ (1000 * np.array(p, float))

    def local(self, v):
        return self.m @ (np.array(v, float) - self.o) / 1000

    def point(self, p):
        x, y, z = self.ecef(p)
        lon = math.degrees(math.atan2(y, x))
        r = math.hypot(x, y)
        lat = math.atan2(z, r * (1 - E2))
        for _ in range(20):
            n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
            h = r * math.cos(lat) + z * math.sin(lat) - A * math.sqrt(1 - E2 * math.sin(lat) ** 2)
            lat = math.atan2(z, r * (1 - E2 * n / (n + h)))
        return Point(lon, math.degrees(lat), -h / 1000)

    def back(self, pt):
        a, o, h = math.radians(pt.latitude), math.radians(pt.longitude), -1000 * pt.depth
        n = A / math.sqrt(1 - E2 * math.sin(a) ** 2)
        return self.local([(n + h) * math.cos(a) * math.cos(o), (n + h) * math.cos(a) * math.sin(o), (n * (1 - E2) + h) * math.sin(a)])


def whole(x, k):
    x = float(x) * k
    return round(x) if abs(x) < 1e8 else ODD


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        r = self.rnd
        self.at = Place(*r.choice([(34.1, -118.2), (0.0, 0.0), (0.0, 77.5), (-41.3, 174.8), (61.0, -150.0), (12.5, -0.001), (-20.0, 180.0), (80.0, 10.0), (r.uniform(-75, 75), r.uniform(-180, 180))]))
        self.be(sess.get('init', {}).get('q') or [[0, 0, -1], [0, 5, -1], [4, 5, -4], [4, 0, -4]])

    def be(self, q):
        self.q = [self.at.point(p) for p in q]

    def state(self):
        out = []
        for p in self.q:
            v = self.at.back(p)
            out.append([round(x) if abs(x - round(x)) < 1e-4 else ODD for x in v])
        return {'q': out}

    def turn(self, v):
        assert isinstance(v, Vector)
        return [whole(x, 1000) for x in self.at.m @ np.array(v.getTuple(), float)]

    def do(self, c):
        res = {'ok': True, 'exc': '', 'v': [], 'says': '', 'mesh': {'nx': 0, 'ny': 0, 'nodes': [], 'cells': True}}
        was = copy.deepcopy(self.q)
        try:
            getattr(self, 'do_' + c['op'])(c, res)
        except Exception as e:
            res.update(ok=False, exc=exc_kind(e))
        if c['op'] != 'reverse' and c['op'] != 'be':
            assert [(p.longitude, p.latitude, p.depth) for p in was] == [(p.longitude, p.latitude, p.depth) for p in self.q]
        return res

    def do_be(self, c, res):
        self.be(c['q'])

    def do_reverse(self, c, res):
        old = list(self.q)
        q = utils.reverse_quad(old)
        assert all(any(p is o for o in old) for p in q) and len(old) == 4 and all(a is b for a, b in zip(old, self.q))
        self.q = list(q)

    def do_normal(self, c, res):
        res['v'] = self.turn(utils.get_quad_normal(self.q))

    def do_strike(self, c, res):
        res['v'] = self.turn(utils.get_quad_strike_vector(self.q))

    def do_down(self, c, res):
        res['v'] = self.turn(utils.get_quad_down_dip_vector(self.q))

    def do_vertical(self, c, res):
        res['v'] = self.turn(utils.get_vertical_vector(self.q))

    def do_sizes(self, c, res):
        res['v'] = [whole(utils.get_quad_length(self.q), 100), whole(utils.get_quad_width(self.q), 100), whole(math.cos(math.radians(utils.get_quad_dip(self.q))), 1000)]

    def do_flat(self, c, res):
        ok, q = utils.is_quad(self.q)
        assert len(q) == 4
        for k in (0, 1, 3):
            assert np.allclose(self.at.back(q[k]), self.at.back(self.q[k]), atol=1e-5)
        res['says'] = 'yes' if ok is True or ok is np.True_ or ok == 1 else 'no'
        res['v'] = [whole(x, 100) for x in self.at.back(q[2])]

    def do_mesh(self, c, res):
        m = utils.get_quad_mesh(self.q, c['dx'] / 10 if self.rnd.random() < 0.5 else np.float64(c['dx'] / 10))
        ny, nx = m['x'].shape
        nodes = [[self.at.local([m['x'][j, i], m['y'][j, i], m['z'][j, i]]) for i in range(nx)] for j in range(ny)]
        cells = True
        for a in 'xyz':
            x = m[a]
            for name, y in (('ul', x[:-1, :-1]), ('ur', x[:-1, 1:]), ('ll', x[1:, :-1]), ('lr', x[1:, 1:]),
                            ('cp', (x[:-1, :-1] + x[:-1, 1:] + x[1:, :-1] + x[1:, 1:]) / 4)):
                g = m[name + a]
                cells = cells and g.shape == (ny - 1, nx - 1) and bool(np.allclose(g, y, rtol=0, atol=1e-3))
        res['mesh'] = {'nx': nx, 'ny': ny, 'nodes': [[[whole(x, 100) for x in p] for p in row] for row in nodes], 'cells': cells}

    def do_slipon(self, c, res):
        res['v'] = self.turn(utils.get_quad_slip(self.q, c['rake'] / 4))

    def do_slip(self, c, res):
        f = {'all': utils.get_local_unit_slip_vector, 'ds': utils.get_local_unit_slip_vector_DS, 'ss': utils.get_local_unit_slip_vector_SS}[c['part']]
        v = f(c['strike'] / 4, c['dip'] / 4, c['rake'] / 4)
        assert isinstance(v, Vector)
        res['v'] = [whole(x, 10000) for x in v.getTuple()]

    def do_mech(self, c, res):
        r = c['rake'][0] / 10 if c['rake'] else None
        if r is not None and r == int(r) and self.rnd.random() < 0.5:
            r = int(r)
        res['says'] = utils.rake_to_mech(r)

    def do_apart(self, c, res):
        k = self.rnd.choice([1, 1000])
        if self.rnd.random() < 0.5:
            f = lambda p: Vector(*[float(k * x) for x in p])
        else:
            k = 1000
            f = lambda p: Vector(*self.at.ecef(p))
        res['v'] = [whole(utils.get_distance_to_plane([f(c['a']), f(c['b']), f(c['c'])], f(c['p'])), 100 / k)]
