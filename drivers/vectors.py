import decimal
import fractions
import random

import numpy as np

from drivers.common import exc_kind, ticks
from impactutils.vectorutils.ecef import ecef2latlon, latlon2ecef
from impactutils.vectorutils.point import Point
from impactutils.vectorutils.vector import Vector


def whole(x):
    n = round(float(x)) if abs(float(x)) < 2e9 else 8888888
    return n if abs(n - float(x)) < 1e-9 * max(1, abs(n)) else 8888888


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        self.v = Vector(0, 0, 0)

    def state(self):
        return {'v': [whole(x) for x in (self.v.x, self.v.y, self.v.z)]}

    def vec(self, c):
        if not c:
            return self.rnd.choice([5, None, (1, 2, 3), 'x', np.array([1, 2, 3]), 2.5, Point(1, 2, 3), [1, 2, 3]])
        k = self.rnd.choice('vta')
        if k == 'v':
            return Vector(*[self.rnd.choice([int, float, np.float64])(x) for x in c])
        return Vector.fromTuple(tuple(c) if k == 't' else np.array(c))

    def do(self, c):
        res = {'ok': True, 'exc': '', 'n': []}
        try:
            getattr(self, 'do_' + c['op'])(c, res)
        except Exception as e:
            res.update(ok=False, exc=exc_kind(e))
        return res

    def binary(self, c, f):
        old, w = self.v, self.vec(c['v'])
        was = old.getTuple(), getattr(w, 'getTuple', lambda: None)()
        out = f(old, w)
        assert (old.getTuple(), getattr(w, 'getTuple', lambda: None)()) == was and out is not old and out is not w
        return out

    def do_be(self, c, res):
        self.v = self.vec(c['v'])

    def do_add(self, c, res):
        self.v = self.binary(c, lambda a, b: a + b)

    def do_sub(self, c, res):
        self.v = self.binary(c, lambda a, b: a - b)

    def do_cross(self, c, res):
        self.v = self.binary(c, lambda a, b: a.cross(b))

    def do_mul(self, c, res):
        r = self.rnd
        if c['k'] == []:
            k = r.choice([None, 'x', [1], {}, (1, 2), Vector(1, 2, 3)])
            self.v * k if r.random() < 0.5 else k * self.v
            return
        k = r.choice([int, float, np.float32, np.int64, fractions.Fraction, decimal.Decimal])(c['k'][0])
        old, was = self.v, self.v.getTuple()
        left = r.random() < 0.5 and not isinstance(k, np.generic)
        self.v = k * old if left else old * k
        assert old.getTuple() == was and self.v is not old

    def do_dot(self, c, res):
        res['n'] = [whole(self.binary(c, lambda a, b: a.dot(b)))]

    def do_distance(self, c, res):
        res['n'] = [whole(self.binary(c, lambda a, b: a.distance(b)) ** 2)]

    def do_mag(self, c, res):
        res['n'] = [whole(self.v.mag() ** 2)]

    def do_eq(self, c, res):
        w = self.vec(c['v'])
        e = self.v == w
        assert (self.v != w) == (not e)
        res['n'] = [int(e)]

    def do_forms(self, c, res):
        a, t = self.v.getArray(), self.v.getTuple()
        assert isinstance(a, np.ndarray) and a.shape == (3,) and isinstance(t, tuple) and len(t) == 3
        p = repr(self.v)
        assert p[:3] == '<x=' and p[-1] == '>'
        q = [x.split('=')[1] for x in p[1:-1].split(',')]
        res['n'] = [whole(x) for x in a] + [whole(x) for x in t] + [whole(x) for x in q]
        a[0] = 77            # the caller's own

    def do_norm(self, c, res):
        n = self.v.norm()
        res['n'] = [round(x * 1000) for x in (n.x, n.y, n.z)]
        assert abs(n.mag() - 1) < 1e-12

    def do_bearing(self, c, res):
        p, q = Point(c['lon1'] / 2, c['lat1'] / 2, 5), Point(c['lon2'] / 2, c['lat2'] / 2)
        az = float(p.azimuth(q))
        assert -360 <= az <= 360
        res['n'] = [round(az * 2)]

    @staticmethod
    def place(lat, lon, dep):
        near = lambda v, u: round(v / u) if abs(v / u - round(v / u)) < 1e-5 else 8888888
        return [near(lat, .5), near(lon, .5), near(dep, 1)]

    def do_places(self, c, res):
        r, ps = self.rnd, c['ps']
        lat, lon, dep = ([p[k] / u for p in ps] for k, u in (('lat', 2), ('lon', 2), ('dep', 1)))
        how = r.choice(['scalar', 'vector', 'array', 'array'])
        if how == 'array':
            shape = r.choice([(len(ps),), (1, len(ps)), (len(ps), 1)])
            a = [np.array(x).reshape(shape) for x in (lat, lon, dep)]
            was = repr(a)
            xyz = latlon2ecef(*a)
            w2 = repr(xyz)
            back = ecef2latlon(*xyz)
            assert repr(a) == was and repr(xyz) == w2
            assert all(x.shape == shape for x in list(xyz) + list(back))
            back = list(zip(*[x.ravel() for x in back]))
            xyz = list(zip(*[x.ravel() for x in xyz]))
        elif how == 'scalar':
            xyz = [latlon2ecef(*p) for p in zip(lat, lon, dep)]
            back = [ecef2latlon(*x) for x in xyz]
            assert all(np.ndim(y) == 0 for x in back for y in x)
        else:
            pts = [Point(b, a, d) if d or r.random() < 0.5 else Point(b, a) for a, b, d in zip(lat, lon, dep)]
            for p, a, b, d in zip(pts, lat, lon, dep):
                assert (p.x, p.y, p.z) == (b, a, d) == (p.longitude, p.latitude, p.depth)
            vs = [Vector.fromPoint(p) for p in pts]
            xyz = [v.getTuple() for v in vs]
            back = [(p.y, p.x, p.z) for p in (v.toPoint() for v in vs)]
        res['n'] = [[[round(float(t) / 100) for t in x], self.place(*[float(t) for t in b])] for x, b in zip(xyz, back)]
