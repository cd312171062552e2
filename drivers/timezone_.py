import json
import os
import random
from datetime import datetime, timedelta

import fiona
import numpy as np
from PIL import Image

from drivers.common import exc_kind
from impactutils.time.timeutils import LocalTime, LocalTimeNE, TimeConversion

TZ = {'UTC': 'UTC', 'ET': 'America/New_York', 'MT': 'America/Denver', 'HT': 'Pacific/Honolulu', 'CET': 'Europe/Paris', 'IST': 'Asia/Kolkata', 'NPT': 'Asia/Kathmandu',
      'JST': 'Asia/Tokyo', 'SAST': 'Africa/Johannesburg', 'AET': 'Australia/Sydney', 'W5': 'Etc/GMT+5', 'E3': 'Africa/Nairobi', 'P9': 'Asia/Jayapura'}
NAME = {v: k for k, v in TZ.items()}
NAME.update({'Australia/Melbourne': 'AET', 'Asia/Riyadh': 'E3'})


def civil(t):
    return [t.year, t.month, t.day, t.hour, t.minute] + ([t.second] if t.second or t.microsecond else [])


def minutes(d):
    return int(d.total_seconds() // 60) if isinstance(d, timedelta) and d.total_seconds() % 60 == 0 else 8888888


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        self.dir, self.n = scratch, 0
        self.lt = self.tc = None
        self.st = {'map': {'own': False, 'zones': [], 'there': False}, 'at': [], 'ras': {'left': 0, 'top': 0, 'res': 1, 'cells': [], 'cross': False}}

    def state(self):
        return json.loads(json.dumps(self.st))

    def shapefile(self, zones):
        self.n += 1
        path = os.path.join(self.dir, 'zones%d.shp' % self.n)
        with fiona.open(path, 'w', driver='ESRI Shapefile', crs='EPSG:4326', schema={'geometry': 'Polygon', 'properties': {'tzid': 'str'}}) as f:
            for z in zones:
                w, e, s, n = z['box']
                ring = [(w, s), (e, s), (e, n), (w, n), (w, s)]
                k = self.rnd.randrange(4)
                ring = ring[k:-1] + ring[:k + 1]
                f.write({'geometry': {'type': 'Polygon', 'coordinates': [ring[::self.rnd.choice([1, -1])]]}, 'properties': {'tzid': TZ[z['tz']]}})
        return path

    def raster(self, ras, lacks):
        self.n += 1
        names = sorted({t for row in ras['cells'] for t in row} | {'UTC', 'JST'})
        self.rnd.shuffle(names)
        codes = self.rnd.sample(range(250), len(names))
        tif, js = os.path.join(self.dir, 'r%d.tif' % self.n), os.path.join(self.dir, 'c%d.json' % self.n)
        num = dict(zip(names, codes))
        Image.fromarray(np.array([[num[t] for t in row] for row in ras['cells']], dtype=np.uint8)).save(tif)
        with open(js, 'w') as f:
            json.dump({TZ[k]: v for k, v in num.items()}, f)
        rows, cols = len(ras['cells']), len(ras['cells'][0])
        left, top, res = ras['left'] / 4, ras['top'] / 4, ras['res'] / 4
        right, bottom = left + cols * res, top - rows * res
        if ras['cross']:
            right -= 360
        kw = {'raster_shape': (rows, cols), 'resolution': (res, res), 'timezone_coding': js,
              'extents': {'Upper Left': (left, top), 'Lower Left': (left, bottom), 'Upper Right': (right, top), 'Lower Right': (right, bottom)}}
        kw.pop(lacks, None)
        return TimeConversion(tif, **kw)

    def run(self, c, res):
        op = c['op']
        if op == 'map':
            lat, lon, t = c['at']
            w = (datetime(*t), lat / 4, lon / 4)
            self.lt = LocalTimeNE(*w) if c['own'] else LocalTime(self.shapefile(c['zones']), *w)
            self.st.update(map={'own': c['own'], 'zones': c['zones'], 'there': True}, at=c['at'])
        elif op == 'raster':
            self.tc = self.raster(c['ras'], c['lacks'])
            self.st['ras'] = c['ras']
        elif op in ('update', 'ask') and self.lt is None or op == 'look' and self.tc is None:
            res.update(ok=False, exc='idle')
        elif op == 'update':
            lat, lon, t = c['at']
            self.lt.update(datetime(*t), lat / 4, lon / 4)
            self.st['at'] = c['at']
        if op in ('map', 'update', 'ask') and res['ok']:
            tz = self.lt.getTimeZone()
            res.update(local=civil(self.lt.getLocalTime()), off=minutes(self.lt.getUTCOffset()), tz=NAME.get(tz, tz))
        elif op == 'look' and res['ok']:
            t, lat, lon = datetime(*c['t']), c['lat'] / 4, c['lon'] / 4
            a = () if c['how'] == 'floor' and self.rnd.random() < 0.5 else (c['how'],)
            if c['what'] == 'code':
                res['tz'] = NAME.get(self.tc.get_timezone_code(lat, lon, *a), '?')
            else:
                v = (self.tc.to_localtime if c['what'] == 'local' else self.tc.to_utctime)(t, lat, lon, *a)
                res.update(local=civil(v), off=minutes(v.utcoffset()))

    def do(self, c):
        res = {'ok': True, 'exc': '', 'tz': '', 'off': 0, 'local': []}
        try:
            self.run(c, res)
        except Exception as e:
            n = type(e).__name__
            res.update(ok=False, exc=n if n in ('RequiredArgumentError', 'UnsupportedArgumentError') else exc_kind(e))
        return res
