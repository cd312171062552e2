import random
import warnings
from datetime import datetime, timedelta, timezone

from drivers.common import exc_kind
from impactutils.time.ancient_time import HistoricTime
from impactutils.time.timeutils import ElapsedTime


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        self.t = None

    def state(self):
        t = self.t
        if t is None:
            return {'t': [], 'z': ''}
        return {'t': [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond] if type(t) is HistoricTime else [0],
                'z': '' if t.tzinfo is None else t.tzname()}

    def other(self, t, cls=None):
        if cls is None:
            cls = self.rnd.choice([HistoricTime, datetime])
        return cls(*t, tzinfo=self.t.tzinfo if self.t is not None else None)

    def run(self, c, res):
        op = c['op']
        if op == 'set':
            self.t = HistoricTime(*c['t'], tzinfo=timezone.utc if c['z'] else None)
        elif op == 'read':
            y, m, d, H, M, S, f = c['t']
            text, fmt = self.rnd.choice([('%04d-%02d-%02dT%02d:%02d:%02d.%06dZ' % (y, m, d, H, M, S, f), '%Y-%m-%dT%H:%M:%S.%fZ'),
                                         ('%02d/%02d/%04d %02d:%02d:%02d.%06d' % (m, d, y, H, M, S, f), '%m/%d/%Y %H:%M:%S.%f')])
            t = HistoricTime.strptime(text, fmt)
            if c['z']:
                t = t.replace(tzinfo=timezone.utc)
            self.t = t
        elif op == 'say':
            res['text'] = ElapsedTime().getTimeStr(c['big'], c['small'], c['unit'])
        elif self.t is None:
            res.update(ok=False, exc='idle')
        elif op == 'write':
            kw = {'force': True} if c['force'] else {} if self.rnd.random() < 0.5 else {'force': False}
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                res['text'] = self.t.strftime(''.join(c['fs']).replace('@', '%'), **kw).replace('%', '@')
            res['warned'] = bool(ws)
        elif op == 'again':
            fmt = self.rnd.choice(['%Y-%m-%dT%H:%M:%S.%f', '%Y %j %H %M %S %f', '%f %B %d, %Y %I:%M:%S %p', '%a %d %b %Y %T.%f'.replace('%T', '%H:%M:%S')])
            t = HistoricTime.strptime(self.t.strftime(fmt), fmt)
            if self.t.tzinfo is not None:
                t = t.replace(tzinfo=self.t.tzinfo)
            self.t = t if t == self.t and type(t) is type(self.t) else None
        elif op == 'move':
            dt = timedelta(days=c['days'], seconds=c['secs'])
            self.t = self.rnd.choice([lambda: self.t + dt, lambda: self.t - (-dt)])()
        elif op == 'since':
            e, o = ElapsedTime(), self.other(c['t'])
            d = e.getTimeElapsed(o, self.t)
            res['units'] = [int(d.pop(k)) if d[k] == int(d[k]) else -1 for k in ('weeks', 'days', 'hours', 'minutes', 'seconds')] + sorted(d)
            res['text'] = e.getElapsedString(o, self.t)
        elif op == 'ago':
            then = datetime.utcnow() - timedelta(days=c['days'], seconds=c['secs'], microseconds=1000)
            res['text'] = ElapsedTime().getElapsedString(then)
        else:
            raise AssertionError(op)

    def do(self, c):
        res = {'ok': True, 'exc': '', 'text': '', 'units': [], 'warned': False, 'kept': True}
        try:
            self.run(c, res)
        except Exception as e:
            res.update(ok=False, exc='OverflowError' if isinstance(e, OverflowError) else 'Exception' if c['op'] in ('since', 'say') else exc_kind(e), text='')
        return res
