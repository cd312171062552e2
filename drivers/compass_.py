import random

import numpy as np

from drivers.common import exc_kind
from impactutils.mapping.compass import get_compass_dir, get_compass_dir_azimuth


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))

    def state(self):
        return {'n': 0}

    def do(self, c):
        res = {'ok': True, 'exc': '', 'text': ''}
        r = self.rnd
        kw = {k: c[k] for k, d in (('resolution', 'intercardinal'), ('format', 'short')) if c[k] != d or r.random() < 0.5}
        try:
            if c['op'] == 'azimuth':
                a = c['a'] / 80
                v = get_compass_dir_azimuth(r.choice([a, np.float64(a)]), **kw)
            else:
                v = get_compass_dir(c['lat1'] / 2, c['lon1'] / 2, c['lat2'] / 2, c['lon2'] / 2, **kw)
            res['text'] = v if isinstance(v, str) else '?'
        except Exception as e:
            res.update(ok=False, exc=exc_kind(e))
        return res
