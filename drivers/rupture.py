import copy
import json
import math
import os
import random

import numpy as np

from drivers.common import exc_kind
from drivers.lattice import Lattice, NONE, ODD, direction, hundredths
from impactutils.rupture.edge_rupture import EdgeRupture
from impactutils.rupture.factory import get_rupture, rupture_from_dict, rupture_from_dict_and_origin
from impactutils.rupture.origin import Origin
from impactutils.rupture.point_rupture import PointRupture
from impactutils.rupture.quad_rupture import QuadRupture
from impactutils.time.ancient_time import HistoricTime

REFS = {'a': 'Smith (2001)', 'b': 'Kim & al, 99;', 'c': 'J. "Seis" 12:4', 'd': '7 > 5'}
REFRAW = sorted(REFS.items(), key=lambda kv: -len(kv[1]))


def ref_text(ref):
    return ' '.join(REFS[t] for t in ref)


def ref_tokens(s):
    if not isinstance(s, str):
        return ['?']
    out, s = [], s.strip()
    while s:
        for k, v in REFRAW:
            if s.startswith(v):
                out.append(k)
                s = s[len(v):].strip()
                break
        else:
            return ['?' + s[:30]]
    return out


class Driver(object):
    def __init__(self, sess, scratch):
        r = self.rnd = random.Random(sess.get('seed', 0))
        self.g = Lattice(r.choice([-118.3, 0.02, 12.5, 95.0, 179.4]), r.choice([0.01, 34.2, -41.3, 58.0, -3.0]), r.choice([1.0, 2.0]))
        if sess.get('line'):
            self.g = Lattice(179.98, r.choice([52.0, -20.0]), 1.0)
        self.path = os.path.join(scratch, 'rup_%d' % (id(self) % 9973))
        if os.path.exists(self.path):
            os.unlink(self.path)
        h = self.g.lonlat((1, 1, 3))
        self.event = {'id': 'us1000', 'netid': 'us', 'network': 'x', 'lat': h[1], 'lon': h[0], 'depth': h[2], 'locstring': 'here', 'mag': 6.5,
                      'time': HistoricTime(2009, 3, 4, 5, 6, 7, r.choice([0, 250000]))}
        if r.random() < 0.5:
            self.event['reference'] = 'catalogue'
        if r.random() < 0.5:
            self.event['mech'] = r.choice(['RS', 'SS', 'NM'])
        self.origin = Origin(copy.deepcopy(self.event))
        self.before = copy.deepcopy(self.origin.__dict__)
        self.wob = r.random() if r.random() < 0.5 else 0
        self.rup = None
        self.said = {'kind': 'none'}      # a file made by hand

    # -- observing ------------------------------------------------------
    def poly(self, p):
        return [self.g.point(*q) for q in p]

    def parse_json(self, d, typ=None):
        m = d['metadata']
        geom = d['features'][0]['geometry']
        if geom['type'] == 'Point':
            typ, polys = 'point', []
        else:
            polys = [self.poly(p) for p in geom['coordinates'][0]]
            typ = 'edge' if 'mesh_dx' in m else 'quad' if 'lat' in m else 'hand'
        return {'kind': 'json', 'typ': typ, 'polys': polys, 'ref': ref_tokens(m['reference']), 'dx': hundredths(m.get('mesh_dx', 0)), 'bad': ''}

    def parse_text(self, text):
        lines = []
        for s in text.splitlines():
            s = s.strip()
            if s.startswith('#'):
                lines.append({'k': 'ref', 'w': ref_tokens(s[1:])})
            elif s.startswith('>'):
                lines.append({'k': 'end'})
            elif s:
                try:
                    lat, lon, dep = [float(v) for v in s.split()]
                    lines.append({'k': 'pt', 'p': self.g.point(lon, lat, dep)})
                except ValueError:
                    lines.append({'k': 'bad'})
        return {'kind': 'text', 'fmt': 'old', 'lines': lines}

    def state(self):
        if self.rup is None:
            rup = {'cls': 'none', 'polys': [], 'ref': [], 'dx': 0}
        else:
            cls = {QuadRupture: 'quad', EdgeRupture: 'edge', PointRupture: 'point'}.get(type(self.rup), '?')
            out = self.path + '.out'
            self.rup.writeGeoJson(out)
            j = self.parse_json(json.load(open(out)))
            os.unlink(out)
            ref = ref_tokens(self.rup.getReference())
            rup = {'cls': cls if cls == j['typ'] else cls + '/' + j['typ'], 'polys': j['polys'],
                   'ref': ref if ref == j['ref'] else ['?'], 'dx': j['dx']}
        return {'rup': rup, 'file': self.said}

    def pts(self, ps):
        return [self.g.point(p.longitude, p.latitude, p.depth) for p in ps]

    def loops(self, lons, lats, deps):
        out, cur = [], []
        for v in zip(lons, lats, deps):
            if any(np.isnan(v)):
                out.append(cur)
                cur = []
            else:
                cur.append(self.g.point(*v))
        return out + ([cur] if cur else [])

    def views(self):
        r, u = self.rup, self.g.u
        if r is None:
            return {'quads': 'none'}
        o = r.getOrigin()
        if isinstance(r, PointRupture):
            return {'quads': 'none' if r.getQuadrilaterals() is None else 'some',
                    'here': (r.lons, r.lats, r.depths) == (o.lon, o.lat, o.depth)}
        v = {'quads': [self.pts(q) for q in r.getQuadrilaterals()], 'groups': [int(x) for x in r._getGroupIndex()],
             'length': hundredths(r.getLength(), u), 'width': hundredths(r.getWidth(), u), 'area': hundredths(r.getArea(), u * u),
             'top': hundredths(r.getDepthToTop(), u), 'strike': direction(r.getStrike()), 'dip': direction(r.getDip()),
             'outline': self.loops(r.lons, r.lats, r.depths)}
        if isinstance(r, QuadRupture):
            v.update(ngroups=r.getNumGroups(), nquads=r.getNumQuads(), lengths=[hundredths(x, u) for x in r.getIndividualTopLengths()],
                     widths=[hundredths(x, u) for x in r.getIndividualWidths()], arrays=self.loops(*r.getRuptureAsArrays()))
            m = r.getRuptureAsMesh()
            if self.loops(m.lons, m.lats, m.depths) != v['arrays'] or [x for x in r.getDeps() if x == x] != [x for x in r.getRuptureAsArrays()[2] if x == x]:
                v['arrays'] = []
        return v

    def sound(self):
        """the origin given is the one kept, and is as it was"""
        if self.origin.__dict__ != self.before:
            return False
        if self.rup is None:
            return True
        o = self.rup.getOrigin().__dict__
        return all(o.get(k) == v for k, v in self.event.items() if k != 'reference')

    # -- making files -----------------------------------------------------
    def write_text(self, c):
        r = self.rnd
        out = []
        f = (lambda x: '%.6f' % x) if r.random() < 0.8 else repr
        for ln in c['lines']:
            if ln['k'] == 'ref':
                out.append(r.choice(['#', '# ', '  #']) + ref_text(ln['w']))
            elif ln['k'] == 'end':
                out.append(r.choice(['>', '> -Z', ' >']))
            elif ln['k'] == 'bad':
                out.append(r.choice(['1.0 2.0', '1.0', 'one two three', '1.0 2.0 3.0 4.0', '{', '1.0 2.0 x']))
            else:
                lon, lat, dep = self.g.lonlat(ln['p'])
                a, b = (lon, lat) if c['fmt'] == 'new' else (lat, lon)
                sep = ',' if c['fmt'] == 'comma' else r.choice([' ', '\t', '   '])
                out.append(sep.join([f(a), f(b), f(dep)]))
            if r.random() < 0.1:
                out.append(r.choice(['', '  ']))
        text = r.choice(['\n', '\r\n']).join(out)
        with open(self.path, 'w', newline='') as f:
            f.write(text + r.choice(['', '\n']))

    def write_json(self, c):
        polys = [[self.g.lonlat(p) for p in q] for q in c['polys']]
        d = {'type': 'FeatureCollection', 'metadata': {'reference': ref_text(c['ref'])},
             'features': [{'type': 'Feature', 'properties': {'rupture type': 'rupture extent'},
                           'geometry': {'type': 'MultiPolygon', 'coordinates': [polys]}}]}
        bad, f = c['bad'], d['features'][0]
        if bad == 'collection':
            d['type'] = 'Feature'
        elif bad == 'two':
            d['features'].append(copy.deepcopy(f))
        elif bad == 'zero':
            d['features'] = []
        elif bad == 'reference':
            del d['metadata']['reference']
        elif bad == 'metadata':
            del d['metadata']
        elif bad == 'feature':
            f['type'] = 'Thing'
        elif bad == 'geometry':
            f['geometry']['type'] = 'Polygon'
        elif bad == 'coordinates':
            del f['geometry']['coordinates']
        text = json.dumps(d, indent=self.rnd.choice([None, 1]))
        if bad == 'cut':
            text = text[:-1 - self.rnd.randrange(len(text) // 2)]
        with open(self.path, 'w') as f:
            f.write(text)

    # -- building ---------------------------------------------------------
    def arr(self, v):
        v = list(v)
        return self.rnd.choice([np.array, list, tuple])(v)

    def cols(self, points, uneven=False):
        """three sequences: lon, lat, depth; corners said to be level are so within a few metres"""
        ps = [self.g.lonlat(p) for p in points]
        if uneven and self.wob:
            for v, p in zip(ps, points):
                v[2] += random.Random('%s %s' % (self.wob, p)).randrange(9) / 1000
        return [self.arr([p[k] for p in ps]) for k in range(3)]

    def build(self, c):
        how, r = c['how'], self.rnd
        kw = {}
        if c['groups']:
            kw['group_index'] = self.arr(c['groups']) if how != 'vertices' or c['bad'] == '' else list(c['groups'])
        if how != 'orient' and how != 'point' and (c['ref'] or r.random() < 0.7):
            kw['reference'] = ref_text(c['ref'])
        elif how == 'vertices':
            kw['reference'] = ''
        if how == 'point':
            if c['ref']:
                return PointRupture(self.origin, reference=ref_text(c['ref'])), []
            return PointRupture(self.origin, ''), []
        if how == 'vertices':
            a = []
            for k in range(4):
                a += self.cols([q[k] for q in c['quads']], True)
            if c['bad'] == 'ConsistentLengthError' and not c['groups']:
                k = r.randrange(12)
                a[k] = a[k][:-1]
            if c['bad'] and c['groups']:
                kw['group_index'] = list(c['groups'])[:-1]
            f = QuadRupture.fromVertices
        elif how == 'arrays':
            a = self.cols(c['top'], True) + self.cols(c['bot'], True)
            kw['mesh_dx'] = c['dx'] / 100
            f = EdgeRupture.fromArrays
        else:
            u = self.g.u
            t = c['tops']
            width = [math.hypot(x['h'], x['v']) * u for x in t]
            dip = [math.degrees(math.atan2(x['v'], x['h'])) for x in t]
            strike = [math.degrees(math.atan2(x['s'][0], x['s'][1])) for x in t]
            if how == 'trace':
                p0, p1 = self.cols([x['a'] for x in t]), self.cols([x['b'] for x in t])
                a = [p0[0], p0[1], p1[0], p1[1], p0[2], self.arr(width), self.arr(dip)]
                same = all(abs(s - strike[0]) < 1e-9 for s in strike)
                given = not all(self.along(x) for x in t)
                if given or r.random() < 0.5:
                    kw['strike'] = self.arr(strike[:1] if same and r.random() < 0.5 else strike)
                if c['bad'] == 'ConsistentLengthError':
                    k = r.randrange(7)
                    a[k] = a[k][:-1]
                elif c['bad']:
                    kw['strike'] = list(strike) + [1.0, 2.0]
                f = QuadRupture.fromTrace
            else:
                px, length, dx, dy = [], [], [], []
                for x, w in zip(t, width):
                    n = math.hypot(*x['s'])
                    L = math.hypot(x['b'][0] - x['a'][0], x['b'][1] - x['a'][1])
                    al, dn = r.choice([0, 0.25, 0.5, 1]) * L, r.choice([0, 0.5, 1])
                    s = [x['s'][0] / n, x['s'][1] / n]
                    o = [s[1] * x['h'] * dn, -s[0] * x['h'] * dn, x['v'] * dn]
                    px.append([x['a'][0] + s[0] * al + o[0], x['a'][1] + s[1] * al + o[1], x['a'][2] + o[2]])
                    length.append(L * u)
                    dx.append(al * u)
                    dy.append(dn * w)
                a = self.cols(px) + [self.arr(dx), self.arr(dy), self.arr(length), self.arr(width), self.arr(strike), self.arr(dip)]
                if c['bad']:
                    k = r.randrange(9)
                    a[k] = a[k][:-1]
                kw = {}
                f = QuadRupture.fromOrientation
        held = [a, kw.get('group_index')]
        orig = copy.deepcopy(held)
        made = f(*a, self.origin, **kw)
        return made, [repr(held) == repr(orig)]

    @staticmethod
    def along(x):
        """the given direction is that of the top edge"""
        e = [x['b'][0] - x['a'][0], x['b'][1] - x['a'][1]]
        return e[0] * x['s'][1] == e[1] * x['s'][0] and e[0] * x['s'][0] + e[1] * x['s'][1] > 0

    def idle(self, c):
        op, f = c['op'], self.said
        if op == 'load':
            if f['kind'] == 'none':
                return True
            if f['kind'] == 'text':
                return c['how'] != 'file' or (f['fmt'] == 'new' and not c['newf']) or (f['fmt'] == 'old' and c['newf'])
            return c['how'] != 'file' and (f['bad'] == 'cut' or (c['how'] == 'dict' and f['typ'] == 'hand'))
        if op in ('write', 'redict'):
            return self.rup is None
        return op in ('writetext', 'depthat') and not isinstance(self.rup, QuadRupture)

    # -- calls ------------------------------------------------------------
    def do(self, c):
        op, kept, v = c['op'], True, 0
        if self.idle(c):
            return {'ok': False, 'exc': 'idle', 'v': 0, 'kept': self.sound(), 'views': self.views()}
        try:
            if op == 'text':
                self.write_text(c)
                self.said = {'kind': 'text', 'fmt': c['fmt'], 'lines': c['lines']}
            elif op == 'json':
                self.write_json(c)
                self.said = {'kind': 'json', 'typ': 'hand', 'polys': c['polys'], 'ref': c['ref'], 'dx': 0, 'bad': c['bad']}
            elif op == 'load':
                raw = open(self.path, 'rb').read()
                if c['how'] == 'file':
                    kw = {'mesh_dx': c['dx'] / 100}
                    if not c['newf'] or self.rnd.random() < 0.5:
                        kw['new_format'] = c['newf']
                    self.rup = get_rupture(self.origin, self.path, **kw)
                else:
                    d = json.loads(raw)
                    keep = copy.deepcopy(d)
                    if c['how'] == 'dict':
                        self.rup = rupture_from_dict(d)
                        kept = d == keep
                    else:
                        self.rup = rupture_from_dict_and_origin(d, self.origin, mesh_dx=c['dx'] / 100)
                kept = kept and open(self.path, 'rb').read() == raw
            elif op == 'build':
                self.rup, extra = self.build(c)
                kept = all(extra)
            elif op == 'write':
                self.rup.writeGeoJson(self.path)
                self.said = self.parse_json(json.load(open(self.path)))
            elif op == 'writetext':
                self.rup.writeTextFile(self.path)
                self.said = self.parse_text(open(self.path).read())
            elif op == 'redict':
                d = getattr(self.rup, '_geojson', None)
                if d is None:
                    out = self.path + '.out'
                    self.rup.writeGeoJson(out)
                    d = json.load(open(out))
                keep = copy.deepcopy(d)
                self.rup = rupture_from_dict(d)
                kept = d == keep
            elif op == 'depthat':
                lon, lat, _ = self.g.lonlat(list(c['p']) + [0])
                v = hundredths(self.rup.getDepthAtPoint(lat, lon), self.g.u)
        except Exception as e:
            return {'ok': False, 'exc': type(e).__name__ if type(e).__name__ == 'ConsistentLengthError' else exc_kind(e), 'v': 0,
                    'kept': kept and self.sound(), 'views': self.views()}
        return {'ok': True, 'exc': '', 'v': v, 'kept': kept and self.sound(), 'views': self.views()}
