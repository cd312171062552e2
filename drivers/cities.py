import csv
import io
import os
import random
import tempfile
import zipfile

import numpy as np
import pandas as pd

from drivers.common import exc_kind, ticks
import impactutils.mapping.city as city
from impactutils.mapping.city import Cities

FIELD = {'lat': 'lat', 'lon': 'lon', 'pop': 'pop', 'iscap': 'cap', 'ccode': 'cc'}
NONE = 9999999


def name(n):
    return ''.join(n).replace("e'", '\u00e9')


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        self.dir, self.n = tempfile.mkdtemp(dir=scratch), 0
        self.c = None
        self.own = None         # a column of the user's own, with such a name as the code might use

    @staticmethod
    def mark(lat, lon):
        return float(lat) * 1000 + float(lon) + 1 / 3

    def path(self, ext):
        self.n += 1
        return os.path.join(self.dir, 'f%d%s' % (self.n, ext))

    def rows(self, c):
        df = c.getDataFrame()
        out = []
        for k in range(len(df)):
            r = {'n': ["?"], 'lat': NONE, 'lon': NONE, 'pop': -1, 'cap': -1, 'cc': '-', 'x': NONE, 'y': NONE}
            for col in df.columns:
                v = df[col].iloc[k]
                if col == 'name':
                    r['n'] = list(v) if isinstance(v, str) else ['?', str(v)]
                elif col in ('lat', 'lon', 'x', 'y'):
                    r[col] = ticks(v, 0.5)
                elif col == 'pop':
                    r['pop'] = ticks(v, 1)
                elif col == 'iscap':
                    r['cap'] = int(v) if isinstance(v, (bool, np.bool_)) else 7
                elif col == 'ccode':
                    r['cc'] = v if isinstance(v, str) else '?' + str(v)
            out.append(r)
        return out

    def state(self):
        if self.c is None:
            return {'there': False, 'cols': [], 'rows': []}
        cols = [str(k) for k in self.c.getColumns()]
        if self.own and cols.count(self.own) == 1:
            df = self.c.getDataFrame()
            if all(abs(v - self.mark(a, b)) < 1e-8 for v, a, b in zip(df[self.own], df['lat'], df['lon'])):
                cols.remove(self.own)
        elif self.own:
            cols.append('without ' + self.own)
        return {'there': True, 'cols': cols, 'rows': self.rows(self.c)}

    def cell(self, r, col):
        if col == 'name':
            return name(r['n'])
        v = r[FIELD[col]] if col in FIELD else 'stray'
        return v / 2 if col in ('lat', 'lon') else bool(v) if col == 'iscap' else v

    def make(self, c):
        self.given = None
        cols = c['cols']
        table = {k: [self.cell(r, k) for r in c['rows']] for k in cols}
        if c['how'] == 'csv':
            p = self.path('.csv')
            with open(p, 'w', newline='', encoding='utf-8') as f:
                w = csv.writer(f)
                w.writerow(cols)
                for k in range(len(c['rows'])):
                    w.writerow([table[j][k] for j in cols])
            return Cities.fromCSV(p)
        df = pd.DataFrame(table, columns=cols)
        for k in ('lat', 'lon'):
            if k in df:
                df[k] = df[k].astype(float)
        for k in ('name', 'ccode'):
            if k in df:
                df[k] = df[k].astype(object)
        if self.rnd.random() < 0.5 and len(df):
            df.index = self.rnd.choice([list(range(5, 5 + len(df))), [0] * len(df), list(range(len(df)))[::-1]])
        if 'lat' in df and 'lon' in df and len(df) and self.rnd.random() < 0.3:
            own = self.rnd.choice(['dist', 'distance', 'xmin', 'index'])
            df[own] = [self.mark(a, b) for a, b in zip(df['lat'], df['lon'])]
            out = Cities(df)
            self.given = own
        else:
            out = Cities(df)
        if len(df):
            df.loc[:, 'name'] = 'x'
            df.loc[:, 'lat'] = 0.
        df['junk'] = 1
        return out

    def geonames(self, c):
        lines = []
        for l in c['lines']:
            p = ['0'] * 19
            p[1], p[2], p[3] = ('\u00c9t\u00e9', 'Plain', 'Ur')[len(lines) % 3], name(l['n']), 'a,\u0416,b'
            p[4], p[5], p[6], p[7], p[8], p[9] = str(l['lat'] / 2), str(l['lon'] / 2), 'P', l['fc'], l['cc'], ''
            p[14], p[15], p[17], p[18] = str(l['pop']), '', 'Asia/Tokyo', '2011-11-11'
            lines.append('\t'.join(p) + '\n')
        data = ''.join(lines).encode('utf-8')
        if not c['down']:
            p = self.path('.txt')
            with open(p, 'wb') as f:
                f.write(data)
            before = data
            out = Cities.fromGeoNames(p)
            if open(p, 'rb').read() != before:
                raise AssertionError('the file has changed')
            return out
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as z:
            z.writestr('cities1000.txt', data)
        was, city.request.urlopen = city.request.urlopen, lambda *a, **k: io.BytesIO(b.getvalue())
        tmp, tempfile.tempdir = tempfile.tempdir, tempfile.mkdtemp(dir=self.dir)
        try:
            out = Cities.fromGeoNames()
            if os.listdir(tempfile.tempdir):
                raise AssertionError('files are left')
            return out
        finally:
            city.request.urlopen, tempfile.tempdir = was, tmp

    def run(self, c, res):
        op = c['op']
        if op == 'make':
            self.c = self.make(c)
            self.own = self.given
            return
        if op == 'geonames':
            self.c = self.geonames(c)
            self.own = None
            return
        if self.c is None:
            res.update(ok=False, exc='idle')
            return
        old = self.c
        was = old.getDataFrame()
        new = None
        try:
            if op == 'bounds':
                b = [v / 2 for v in c['b']]
                new = old.limitByBounds(tuple(b) if self.rnd.random() < 0.5 else b)
            elif op == 'radius':
                new = old.limitByRadius(c['lat'] / 2, c['lon'] / 2, c['k'] * 111.19492664455873 / 2)
            elif op == 'population':
                new = old.limitByPopulation(c['pop']) if c['minpop'] == 0 and self.rnd.random() < 0.5 else old.limitByPopulation(c['pop'], minpop=c['minpop'])
            elif op == 'grid':
                kw = {k: v for k, v, d in (('nx', c['nx'], 2), ('ny', c['ny'], 2), ('cities_per_grid', c['n'], 20)) if v != d or self.rnd.random() < 0.5}
                new = old.limitByGrid(**kw)
            elif op == 'name':
                new = old.limitByName(('^' if c['head'] else '') + name(c['body']) + ('$' if c['tail'] else ''))
            elif op == 'sort':
                by = c['by'][0] if len(c['by']) == 1 and self.rnd.random() < 0.6 else list(c['by'])
                old.sortByColumns(by) if c['asc'] and self.rnd.random() < 0.5 else old.sortByColumns(by, ascending=c['asc'])
            elif op == 'project':
                old.project(lambda x, y: (np.asarray(x) + 3.5, np.asarray(y) - 1.5))
            elif op == 'reload':
                p = self.path('.csv')
                old.save(p)
                new = Cities.fromCSV(p)
            elif op == 'spoil':
                df = old.getDataFrame()
                if len(df):
                    df.loc[:, 'name'] = 'x'
                    df.loc[:, 'lat'] = 0.
                df['junk'] = 1
            elif op == 'look':
                lat, lon, names = old.getCities()
                res['at'] = [[ticks(a, 0.5), ticks(b, 0.5), list(n) if isinstance(n, str) else ['?']] for a, b, n in zip(lat, lon, names)]
                res['len'] = len(old) if len(old) == old.len() else -1
                b = [float(v) for v in old.getBounds()]
                res['bounds'] = [] if all(v != v for v in b) else [ticks(v, 0.5) for v in b]
                if not repr(old):
                    res['len'] = -2
        finally:
            if op not in ('sort', 'project'):
                now = old.getDataFrame()
                res['kept'] = bool(now.equals(was) and list(now.columns) == list(was.columns) and new is not old)
        if new is not None:
            self.c = new
            res['kept'] = res['kept'] and isinstance(new, Cities)

    def do(self, c):
        res = {'ok': True, 'exc': '', 'kept': True, 'len': 0, 'bounds': [], 'at': []}
        try:
            self.run(c, res)
        except Exception as e:
            res.update(ok=False, exc=exc_kind(e))
        return res
