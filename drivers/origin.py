import copy
import random

from drivers.common import exc_kind, ticks
from impactutils.rupture.origin import Origin
from impactutils.time.ancient_time import HistoricTime

NONE = 9999999


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        self.o = None
        self.event = None

    def state(self):
        if self.o is None:
            return {'made': False, 'mech': '', 'rake': NONE, 'dip': NONE}
        return {'made': True, 'mech': self.o.mech if isinstance(self.o.mech, str) else '?',
                'rake': ticks(getattr(self.o, 'rake', None), 0.01), 'dip': ticks(getattr(self.o, 'dip', None), 0.01)}

    def angle(self, h):
        v = h / 100
        return int(v) if h % 100 == 0 and self.rnd.random() < 0.5 else v

    def build(self, ev):
        r = self.rnd
        e = {'netid': r.choice(['us', 'ci', '']), 'network': r.choice(['USGS National', '']), 'depth': r.choice([10.0, 0, 3.5]),
             'locstring': r.choice(['somewhere', 'é "x"', '']), 'mag': r.choice([5, 6.7, 0.0]),
             'time': HistoricTime(r.randrange(1, 3000), 2, 3, 4, 5, 6)}
        e['id'] = {'str': r.choice(['us2000abcd', '', 'é']), 'none': None, 'int': r.choice([7, 7.0, b'us', ['x']])}[ev['id']]
        e['lat'], e['lon'] = self.angle(ev['lat']), self.angle(ev['lon'])
        for k in ('mech', 'type'):
            if ev[k] != 'absent':
                e[k] = ev[k]
        if ev['rk'] == 'num':
            v = self.angle(ev['rake'])
            e['rake'] = r.choice([v, str(v), v])
        elif ev['rk'] == 'bad':
            e['rake'] = r.choice(['steep', '', '45d'])
        for k in r.sample(['reference', 'productcode', 'event_type', 'extra'], r.randrange(4)):
            e[k] = r.choice(['a', 'b c', 'é'])
        for m in ev['missing']:
            del e[m]
        keys = list(e)
        r.shuffle(keys)
        return {k: e[k] for k in keys}

    def do(self, c):
        if c['op'] == 'new':
            e = self.build(c['ev'])
            orig = copy.deepcopy(e)
            try:
                o = Origin(e)
            except Exception as x:
                return {'ok': False, 'exc': exc_kind(x), 'kept': True, 'hypo': True}
            self.o, self.event = o, orig
            if self.rnd.random() < 0.3:     # another one made of the same dictionary is the same
                o2 = Origin(e)
                if (o2.mech, o2.rake) != (o.mech, o.rake):
                    return {'ok': True, 'exc': '', 'kept': False, 'hypo': True}
                self.o = o2
        else:
            kw = {}
            if c['mech'] != 'none' or self.rnd.random() < 0.5:
                kw['mech'] = None if c['mech'] == 'none' else c['mech']
            for k in ('rake', 'dip'):
                if c[k] != NONE:
                    kw[k] = self.angle(c[k])
                elif self.rnd.random() < 0.5:
                    kw[k] = None
            try:
                self.o.setMechanism(**kw)
            except Exception as x:
                return {'ok': False, 'exc': exc_kind(x), 'kept': True, 'hypo': True}
        kept = all(getattr(self.o, k, None) == v for k, v in self.event.items() if k not in ('mech', 'type', 'rake'))
        h = self.o.getHypo()
        hypo = (h.longitude, h.latitude, h.depth) == (self.event['lon'], self.event['lat'], self.event['depth'])
        return {'ok': True, 'exc': '', 'kept': kept, 'hypo': hypo}
