import io
import json
import os
import random
import time
import urllib.request
from datetime import datetime
from http.client import IncompleteRead
from urllib.error import HTTPError, URLError
from urllib.parse import parse_qs, urlsplit

from drivers.common import exc_kind, ticks

LOG = []          # requests so far
PAUSED = [False]
SERVER = {}       # kind of request -> answers left, body


def pause(secs):
    if secs > 0:
        PAUSED[0] = True


class Response(io.BytesIO):
    def __init__(self, body, cut):
        super(Response, self).__init__(body)
        self.cut = cut
        self.status = self.code = 200

    def read(self, *a):
        if self.cut:
            raise IncompleteRead(super(Response, self).read()[:10])
        return super(Response, self).read(*a)

    def getcode(self):
        return 200


def chars(s):
    return list(s)


def urlopen(url, data=None, timeout=None, **kw):
    if not isinstance(url, str):
        timeout = url.timeout if timeout is None and isinstance(getattr(url, 'timeout', None), (int, float)) else timeout
        url = url.full_url
    u = urlsplit(url)
    q = {k: v[0] for k, v in parse_qs(u.query).items()}
    base = u.path.rsplit('/', 1)[1]
    rec = {'kind': '?', 'a': [], 'id': [], 'wait': PAUSED[0], 'limit': isinstance(timeout, (int, float)) and timeout > 0}
    PAUSED[0] = False
    if base == 'regions.json' and 'geoserve' in u.path:
        rec.update(kind='regions', a=[ticks(q.get('latitude'), 1e-5), ticks(q.get('longitude'), 1e-5)])
    elif base == 'places.json' and 'geoserve' in u.path:
        rec.update(kind='places', a=[ticks(q.get('latitude'), 1e-5), ticks(q.get('longitude'), 1e-5), ticks(q.get('maxradiuskm'), .1), ticks(q.get('minpopulation'), 1)])
    elif '/detail/' in u.path and base.endswith('.geojson'):
        rec.update(kind='detail', id=chars(base[:-8]))
    elif base == 'grid.xml':
        rec.update(kind='grid', id=chars(u.path.split('/')[-2]))
    LOG.append(rec)
    answers, body = SERVER.get(rec['kind'], ([], b''))
    a = answers.pop(0) if answers else 'down'
    if a.isdigit():
        raise HTTPError(url, int(a), 'status ' + a, {}, io.BytesIO(b'sorry'))
    if a == 'down':
        raise URLError(ConnectionRefusedError(111, 'Connection refused'))
    if a == 'timeout':
        raise URLError(TimeoutError('timed out'))
    return Response(b'<html>hello</html>' if a == 'garbled' and rec['kind'] != 'grid' else body, a == 'cut')


# before the module under test is imported, however it does so
time.sleep = pause
urllib.request.urlopen = urlopen
os.environ['TZ'] = 'America/Denver'
time.tzset()

from impactutils.comcat.query import ComCatInfo, GeoServe  # noqa: E402


REAL = {'Numata': '\u6cbc\u7530 (Numata)', 'Mariposa': "L\u2019Mari\u00f1osa", 'a place': ' a  place ', '5 km S of Santiago': '5 km S of \u00d1u\u00f1oa, \u2026 \U0001f600'}
TOLD = {v: k for k, v in REAL.items()}


def real(s):
    return REAL.get(s, s)


def names(fs):
    return [TOLD.get(f['properties']['name'], f['properties']['name']) for f in fs]


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        self.consts = sess['consts']
        self._g = self._i = None
        self.ngeo = self.ninfo = 0
        self.path = os.path.join(scratch, 'grid.xml')
        if sess.get('init', {}).get('file'):
            with open(self.path, 'w') as f:
                f.write('old')

    def grid(self, k):
        e = self.consts['events'][k - 1]
        return ('<shakemap_grid event_id="%s" event_description="\u00d1u\u00f1oa">\n%s</shakemap_grid>\n' % (''.join(e['id']), '1 2 3\n' * k * 700))

    def state(self):
        f = 0
        if os.path.exists(self.path):
            with open(self.path, encoding='utf-8', errors='replace', newline='') as fh:
                t = fh.read()
            f = 1 if t == 'old' else next((10 + k for k in range(1, len(self.consts['events']) + 1) if t == self.grid(k)), 99)
        return {'geo': self.ngeo, 'info': self.ninfo, 'file': f}

    def geodata(self, k):
        g = self.consts['geos'][k - 1]
        feats = [{'type': 'Feature', 'id': i, 'geometry': {'type': 'Point', 'coordinates': [1.5, 2, 0]}, 'properties': {'name': real(n), 'population': 1000 * i}} for i, n in enumerate(g['places'])]
        places = {'metadata': {'request': 'x'}, 'geonames': {'type': 'FeatureCollection', 'count': len(feats), 'features': feats}}
        regions = {n: {'type': 'FeatureCollection', 'features': [{'properties': {'name': n}}]} for n in g['keys']}
        regions['authoritative'] = {'features': [{'properties': {'name': 'r', 'network': g['auth'][0], 'type': g['auth'][1]}}] if g['auth'] else []}
        if len(g['auth']) and k % 2:
            regions['authoritative']['features'].append({'properties': {'name': 'r2', 'network': 'ZZ', 'type': 'none'}})
        if g['meta']:
            regions['metadata'] = {'request': 'y'}
        return places, regions

    def event(self, k):
        e = self.consts['events'][k - 1]
        s = lambda xs: ',%s,' % ','.join(''.join(x) for x in xs)
        ms = (e['days'] * 86400 + e['secs']) * 1000 + e['ms']
        p = {'ids': s(e['ids']), 'sources': s(e['sources']), 'time': ms, 'updated': ms + 5000, 'mag': e['mag'] / 10, 'place': real(e['place']), 'tsunami': e['tsunami'], 'url': e['url'],
             'products': {'origin': [{'contents': {}}]}}
        if e['shake']:
            p['products']['shakemap'] = [{'contents': {'download/grid.xml': {'url': 'https://earthquake.usgs.gov/product/%s/grid.xml' % ''.join(i)}}} for i in (e['id'], 'older')]
        return {'type': 'Feature', 'id': ''.join(e['id']), 'properties': p, 'geometry': {'type': 'Point', 'coordinates': [e['lon'] / 10, e['lat'] / 10, e['depth'] / 10]}}

    def do(self, c):
        res = {'ok': True, 'a': [], 'b': [], 'n': [], 'log': []}
        del LOG[:]
        PAUSED[0] = False
        SERVER.clear()
        try:
            OPS[c['op']](self, c, res)
        except Exception as e:
            res.update(ok=False)
            res['exc'] = exc_kind(e)
        res['log'] = list(LOG)
        return res

    def bytes(self, j):
        return json.dumps(j, ensure_ascii=self.rnd.random() < 0.4, indent=self.rnd.choice([None, 1])).encode('utf-8')


def _geo(self, c, res):
    places, regions = self.geodata(c['data'])
    SERVER['places'] = (list(c['places']), self.bytes(places))
    SERVER['regions'] = (list(c['regions']), self.bytes(regions))
    kw = {k: v for k, v in (('maxradius', c['radius'] / 10 if c['radius'] % 10 else c['radius'] // 10), ('minpop', c['pop'])) if v}
    self._g = GeoServe(c['lat'] / 1e5, c['lon'] / 1e5, **kw)
    self.ngeo = c['data']


def _info(self, c, res):
    SERVER['detail'] = (list(c['answers']), self.bytes(self.event(c['data'])))
    self._i = ComCatInfo(''.join(self.consts['events'][c['data'] - 1]['ask']))
    self.ninfo = c['data']


def _grid(self, c, res):
    SERVER['grid'] = (list(c['answers']), self.grid(self.ninfo).encode('utf-8') if self.ninfo else b'')
    to = {'none': None, 'file': self.path, 'nowhere': os.path.join(os.path.dirname(self.path), 'none', 'grid.xml')}[c['to']]
    out = self._i.getShakeGrid() if to is None and self.rnd.random() < 0.5 else self._i.getShakeGrid(local_file=to)
    if out is not None:
        res['a'] = ['file' if to and out == to else 'url' if out == 'https://earthquake.usgs.gov/product/%s/grid.xml' % ''.join(self.consts['events'][self.ninfo - 1]['id']) else '?']


def _places(self, c, res):
    got = self._g.getPlaces()
    res['a'] = names(got) if got == self.geodata(self.ngeo)[0]['geonames']['features'] else ['?']


def _regions(self, c, res):
    got = self._g.getRegions()
    want = self.geodata(self.ngeo)[1]
    res['a'] = sorted(k for k in got if k != 'authoritative')
    if any(got[k] != want.get(k) for k in got) or 'authoritative' not in got:
        res['a'] = ['?']


def _authority(self, c, res):
    res['a'] = list(self._g.getAuthoritative())


def _ids(self, c, res):
    a, b = self._i.getAssociatedIds()
    res['b'] = [chars(a)] + [chars(x) for x in b]


def _sources(self, c, res):
    a, b = self._i.getAssociatedSources()
    res['b'] = [chars(a)] + [chars(x) for x in b]


def _params(self, c, res):
    d = self._i.getEventParams()
    t = d['time']
    if t.tzinfo is not None:
        t = t.replace(tzinfo=None) - t.utcoffset()
    dt = t - datetime(1970, 1, 1)
    res['n'] = [dt.days, dt.seconds, ticks(d['lat'], .1), ticks(d['lon'], .1), ticks(d['depth'], .1), ticks(d['magnitude'], .1)]


def _place(self, c, res):
    t = self._i.getLocation()
    res['a'] = [TOLD.get(t, t)]


def _tsunami(self, c, res):
    t = self._i.getTsunami()
    res['n'] = [int(t) if isinstance(t, int) else 99]


def _url(self, c, res):
    res['a'] = [self._i.getURL()]


OPS = {'geo': _geo, 'info': _info, 'grid': _grid, 'places': _places, 'regions': _regions, 'authority': _authority, 'ids': _ids, 'sources': _sources,
       'params': _params, 'place': _place, 'tsunami': _tsunami, 'url': _url}
