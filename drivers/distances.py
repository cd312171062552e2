import copy
import random
import sys

import numpy as np

from drivers.common import exc_kind
from drivers.lattice import Lattice, hundredths
from impactutils.exceptions import ConsistentLengthError
from impactutils.rupture.distance import Distance, get_distance
from impactutils.rupture.edge_rupture import EdgeRupture
from impactutils.rupture.origin import Origin
from impactutils.rupture.point_rupture import PointRupture
from impactutils.rupture.quad_rupture import QuadRupture
from impactutils.time.ancient_time import HistoricTime
from openquake.hazardlib.gsim.base import GMPE
from openquake.hazardlib import const
from openquake.hazardlib.imt import PGA
import ps2ff.run

MEASURES = ['repi', 'rhypo', 'rjb', 'rrup', 'rx', 'ry', 'ry0', 'U', 'T', 'rvolc']


# what a point stands for: scaling, mechanism, dips, aspect ratio
STANDS = [('WC94', 'A', 10, 90, 1.7), ('HB08', 'R', 35, 50, 1.7), ('HB08', 'N', 40, 60, 1.7), ('HB08', 'SS', 75, 90, 1.7),
          ('S14', 'A', 10, 90, 1.0), ('S14', 'R', 30, 60, 1.0), ('S14', 'N', 40, 60, 1.0), ('S14', 'SS', 60, 90, 1.0)]
REGIONS = {'active': 'Active Shallow Crust', 'stable': 'Stable Shallow Crust', 'other': 'Volcanic'}
ADJUST = ps2ff.run.single_event_adjustment


def stand_in(org):
    """for the integration over all ruptures: straight lines that tell which parameters were asked for"""
    def adjust(mag, hyp_depth, ar=1.7, mechanism=None, mag_scaling=None, n_repi=13, min_repi=0.1, max_repi=1000, nxny=7, n_theta=19, n_dip=4,
               min_dip=0, max_dip=np.pi / 2, n_eps=5, trunc=2):
        got = (mag_scaling.name, mechanism.name, round(np.degrees(min_dip)), round(np.degrees(max_dip)), ar)
        k = STANDS.index(got) + 1 if got in STANDS and abs(mag - org.mag) < 1e-9 and abs(hyp_depth - org.depth) < 1e-9 else 50
        x = np.linspace(min_repi, max_repi, n_repi)
        return x, x * k / 10, x * k / 10 + 7, x * 0 + k, x * 0 + k + 0.5
    return adjust


def patch(f, g):
    for m in list(sys.modules.values()):
        if (getattr(m, '__name__', '') or '').startswith(('impactutils', 'ps2ff')) and getattr(m, 'single_event_adjustment', None) is f:
            m.single_event_adjustment = g


def gmpe(needs):
    class Some(GMPE):
        DEFINED_FOR_TECTONIC_REGION_TYPE = const.TRT.ACTIVE_SHALLOW_CRUST
        DEFINED_FOR_INTENSITY_MEASURE_TYPES = {PGA}
        DEFINED_FOR_INTENSITY_MEASURE_COMPONENT = const.IMC.MEDIAN_HORIZONTAL
        DEFINED_FOR_STANDARD_DEVIATION_TYPES = {const.StdDev.TOTAL}
        REQUIRES_SITES_PARAMETERS = set()
        REQUIRES_RUPTURE_PARAMETERS = {'mag'}
        REQUIRES_DISTANCES = set(needs)

        def compute(self, ctx: np.recarray, imts, mean, sig, tau, phi):
            pass
    return Some()


class Driver(object):
    def __init__(self, sess, scratch):
        r = self.rnd = random.Random(sess.get('seed', 0))
        self.g = Lattice(r.choice([-118.3, 0.02, 12.5, 95.0, 179.4]), r.choice([0.01, 34.2, -41.3, 58.0, -3.0]), 1.0)
        if sess.get('line'):
            self.g = Lattice(r.choice([179.98, 180.0, -179.95]), r.choice([52.0, -20.0]), 1.0)
        self.rup = None
        self.exact = not sess.get('real')
        self.case = ['', '']
        self.adjust = ADJUST

    def close(self):
        patch(self.adjust, ADJUST)

    def state(self):
        p, u = self.rup, self.g.u
        if p is None:
            return {'rup': {'cls': 'none', 'polys': [], 'quads': [], 'dx': 0, 'org': [0, 0, 0], 'case': ['', '']}}
        o = p.getOrigin()
        org = self.g.point(o.lon, o.lat, o.depth)
        if isinstance(p, PointRupture):
            return {'rup': {'cls': 'point', 'polys': [], 'quads': [], 'dx': 0, 'org': org, 'case': self.case}}
        d = p._geojson
        polys = [[self.g.point(*q) for q in x] for x in d['features'][0]['geometry']['coordinates'][0]]
        quads = [[self.g.point(q.longitude, q.latitude, q.depth) for q in x] for x in p.getQuadrilaterals()]
        return {'rup': {'cls': 'edge' if isinstance(p, EdgeRupture) else 'quad', 'polys': polys, 'quads': quads,
                        'dx': hundredths(d['metadata'].get('mesh_dx', 0), u) if isinstance(p, EdgeRupture) else 0, 'org': org, 'case': ['', '']}}

    def make(self, c):
        lon, lat, dep = self.g.lonlat(c['org'])
        ev = {'id': 'us1', 'netid': 'us', 'network': '', 'lat': lat, 'lon': lon, 'depth': dep, 'locstring': '', 'mag': c['mag'] / 10,
              'time': HistoricTime(2009, 3, 4, 5, 6, 7)}
        if c['mech']:
            ev['mech'] = c['mech']
        o = Origin(ev)
        if c['cls'] == 'point':
            if c['region']:
                o._tectonic_region = REGIONS[c['region']]
            self.case = [c['region'], c['mech']]
            if self.exact:
                g = stand_in(o)
                patch(self.adjust, g)
                self.adjust = g
            return PointRupture(o)
        self.case = ['', '']
        polys = [[self.g.lonlat(q) for q in p] for p in c['polys']]
        a, g = [[] for _ in range(12)], []
        if c['cls'] == 'edge':
            a = a[:6]
            for j, p in enumerate(polys):
                n = (len(p) - 1) // 2
                for k in range(n):
                    for i, v in enumerate(p[k] + p[2 * n - 1 - k]):
                        a[i].append(v)
                    g.append(j)
            return EdgeRupture.fromArrays(*[np.array(x) for x in a], o, mesh_dx=c['dx'] / 100, group_index=g)
        for j, p in enumerate(polys):
            n = (len(p) - 1) // 2
            for k in range(n - 1):
                for i, v in enumerate(p[k] + p[k + 1] + p[2 * n - k - 2] + p[2 * n - 1 - k]):
                    a[i].append(v)
                g.append(j)
        return QuadRupture.fromVertices(*a, o, reference='', group_index=g)

    def ask(self, c):
        n = len(c['sites'])
        a = np.array([self.g.lonlat(s) for s in c['sites']]).T
        shape = {'1d': (n,), 'row': (1, n), 'column': (n, 1), 'grid': (2, n // 2)}.get(c['shape'], (n,))
        if c['shape'] == 'grid' and n % 2:
            shape = (n, 1)
        lon, lat, dep = [np.array(x).reshape(shape) for x in a]
        if c['shape'] == 'differ':
            k = self.rnd.randrange(3)
            if n > 1 and self.rnd.random() < 0.5:
                cut = [lon[:-1], lat[:-1], dep[:-1]][k]
            else:
                cut = [lon, lat, dep][k].reshape((1, n))
            lon, lat, dep = [cut if i == k else v for i, v in enumerate([lon, lat, dep])]
        if self.rnd.random() < 0.2:
            for v in (lon, lat, dep):
                v.setflags(write=False)
        keep = [lon.copy(), lat.copy(), dep.copy()]
        ms = list(c['methods'])
        self.rnd.shuffle(ms)
        if c['how'] in ('context', 'notgmpe'):
            if self.rnd.random() < 0.5 and len(ms) > 1:
                arg = [gmpe(ms[:1]), gmpe(ms[1:])]
            else:
                arg = gmpe(ms)
            if c['how'] == 'notgmpe':
                arg = self.rnd.choice(['rjb', [gmpe(ms), 3], None])
            dist = Distance(arg, lon, lat, dep, self.rup)
            first = dist.getDistanceContext()
            d = dict(first.__dict__)
            got = dist.getDistanceContext().__dict__
            for k in d:                                   # what is handed out is the caller's
                if isinstance(d[k], np.ndarray) and d[k].size:
                    d[k] = d[k].copy()
                    getattr(first, k).reshape(-1)[0] += 1
            same = set(got) == set(d) and all(np.array_equal(got[k], d[k]) if isinstance(d[k], np.ndarray) else got[k] is d[k] for k in d) and \
                all(np.array_equal(dist.getDistanceContext().__dict__[k], d[k]) for k in d if isinstance(d[k], np.ndarray))
        else:
            arg = ms[0] if c['how'] == 'one' else ms
            before = copy.deepcopy(arg)
            d = get_distance(arg, lat, lon, dep, self.rup, dx=c['dx'] / 100) if c['dx'] != 50 or self.rnd.random() < 0.5 else \
                get_distance(arg, lat, lon, dep, self.rup)
            same = arg == before
        kept = same and all(np.array_equal(x, y) for x, y in zip(keep, [lon, lat, dep]))
        out = {'keys': sorted(k for k in d if k in MEASURES or not k.endswith('_var')), 'v': {m: [] for m in MEASURES}, 'var': {}, 'shape': True}
        for m in MEASURES:
            if m in d:
                x = np.asarray(d[m])
                out['shape'] = out['shape'] and x.shape == lon.shape
                out['v'][m] = [hundredths(y) for y in x.reshape(-1)]
        out['exact'], out['vars'] = self.exact, {'rjb': [], 'rrup': []}
        for m in ('rjb', 'rrup'):
            v = d.get(m + '_var')
            if m in d:
                if v is not None:
                    out['vars'][m] = [hundredths(y) for y in np.reshape(v, -1)]
                out['var'][m] = v is not None and bool(np.shape(v) == lon.shape and (np.asarray(v) >= 0).all())
                if v is None and m + '_var' not in d:
                    out['shape'] = False
            elif m + '_var' in d:
                out['shape'] = False
            else:
                out['var'][m] = False
        return out, kept

    def do(self, c):
        res = {'ok': True, 'exc': '', 'kept': True}
        try:
            if c['op'] == 'make':
                self.rup = self.make(c)
            elif self.rup is None:
                return {'ok': False, 'exc': 'idle', 'kept': True}
            else:
                out, res['kept'] = self.ask(c)
                res.update(out)
        except Exception as e:
            return {'ok': False, 'exc': 'ConsistentLengthError' if isinstance(e, ConsistentLengthError) else exc_kind(e), 'kept': True}
        return res
