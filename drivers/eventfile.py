import copy
import io
import os
import random
import re
import xml.etree.ElementTree as ET

from drivers.common import exc_kind, ticks
from impactutils.rupture.origin import Origin, read_event_file, read_source, write_event_file
from impactutils.time.ancient_time import HistoricTime

NUM = {'lat': 1e-5, 'lon': 1e-5, 'depth': 1e-2, 'mag': 1e-2, 'rake': 1e-2}
STR = {'id': 'id', 'netid': 'netid', 'network': 'network', 'loc': 'locstring', 'mech': 'mech', 'type': 'type',
       'ref': 'reference', 'pc': 'productcode', 'etype': 'event_type'}
NOFILE = {'there': False}
PARTS = ['year', 'month', 'day', 'hour', 'minute', 'second']


def esc(s):
    for a, b in (('&', '&amp;'), ('<', '&lt;'), ('"', '&quot;'), ('\n', '&#10;'), ('\t', '&#9;'), ('\r', '&#13;')):
        s = s.replace(a, b)
    return s


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        self.dir = scratch
        self.path = os.path.join(scratch, 'event.xml')
        self.src = os.path.join(scratch, 'source.txt')
        pool = ['us2000abcd', 'é 日本', '<&>"\'', 'a=b', '&lt;', 'x # y', 'Smith et al. 2016', 'ends with =', '{0}', '%s', "12 km 'NE'", 'nana', 'a/b\\c', '"two words"', "'x'", '0x10']
        self.rnd.shuffle(pool)
        self.words = {t: w for t, w in zip('abcdefgh', pool)}
        # words only an XML file can hold
        self.words.update({'i': 'two\nlines', 'j': ' spaced ', 'k': '\ttab', 'l': '123', 'm': '1e5'})
        self.words['empty'] = ''
        self.tokens = {v: k for k, v in self.words.items()}

    def word(self, t):
        return self.words.get(t, t)

    def token(self, s):
        if s is None:
            return 'none'
        return self.tokens.get(s, s) if isinstance(s, str) else '?%r' % (s,)

    # -- what the file holds, by a parser of our own ------------------------
    def state(self):
        if not os.path.exists(self.path):
            return {'file': NOFILE}
        try:
            root = ET.parse(self.path).getroot()
            a = dict((root if root.tag == 'earthquake' else root.find('earthquake')).items())
        except Exception:
            return {'file': {'there': True, 'lacks': ['everything']}}
        f = {'there': True, 'lacks': [k for k in ('id', 'netid', 'lat', 'lon', 'depth', 'mag', 'locstring') if k not in a]}
        for k, u in NUM.items():
            if k != 'rake':
                f[k] = ticks(a.get(k, 0), u)
        for k, n in STR.items():
            f[k] = self.token(a[n]) if n in a else 'absent'
        f['t'] = [0] * 7
        t = a.get('time')
        if t is not None:
            m = re.match(r'^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?Z$', t)
            try:
                HistoricTime(*[int(x) for x in m.groups()[:6]])
            except (AttributeError, ValueError):
                m = None
            f['form'] = 'bad' if not m else 'sec' if m.group(7) is None else 'frac'
            if m:
                f['t'] = [int(x) for x in m.groups()[:6]] + [int((m.group(7) or '0').ljust(6, '0'))]
        elif all(p in a for p in PARTS):
            f['form'], f['t'] = 'parts', [int(float(a[p])) for p in PARTS] + [0]
        else:
            f['form'] = 'none'
        return {'file': f}

    # -- calls --------------------------------------------------------------
    def num(self, v, u):
        x = v * u if u < 1 else v
        x = round(x, 7)
        return int(x) if x == int(x) and self.rnd.random() < 0.3 else x

    def event(self, e):
        d = {k: self.num(e[k], NUM[k]) for k in ('lat', 'lon', 'depth', 'mag')}
        d['time'] = HistoricTime(*e['t'])
        for k in ('id', 'netid', 'network', 'loc', 'mech', 'ref', 'pc', 'etype'):
            if e[k] != 'absent':
                d[STR[k]] = self.word(e[k])
        keys = list(d)
        self.rnd.shuffle(keys)
        return {k: d[k] for k in keys}

    def write(self, c):
        e = self.event(c['e'])
        path = self.path
        if c['bad'] == 'missing':
            del e[self.rnd.choice(['id', 'netid', 'network', 'lat', 'lon', 'depth', 'mag', 'time', 'locstring'])]
        elif c['bad'] == 'control':
            e[self.rnd.choice(['id', 'netid', 'network', 'locstring'])] = 'a\x01b'
        elif c['bad'] == 'kind':
            k = self.rnd.choice(['lat', 'lon', 'depth', 'mag', 'time', 'id', 'netid', 'locstring'])
            e[k] = 'abc' if k in NUM or k == 'time' else 5
        elif c['bad'] == 'nodir':
            path = os.path.join(self.dir, 'missing', 'event.xml')
        was = copy.deepcopy(e)
        r = write_event_file(e, path)
        ok = r is None
        return {'ok': ok, 'exc': '' if ok else 'message' if isinstance(r, str) and r else 'what', 'v': 'none', 'kept': e == was}

    def hand(self, f):
        a = []
        for k, n in STR.items():
            if f[k] != 'absent':
                a.append((n, esc(self.word(f[k]))))
        for k, u in NUM.items():
            if k != 'rake' and k not in f['lacks']:
                a.append((k, repr(round(f[k] * u, 7))))
        t = f['t']
        stamp = '%04d-%02d-%02dT%02d:%02d:%02d' % tuple(t[:6])
        if f['form'] == 'sec':
            a.append(('time', stamp + 'Z'))
        elif f['form'] == 'frac':
            frac = '%06d' % t[6]
            a.append(('time', stamp + '.' + (frac.rstrip('0') or '0' if self.rnd.random() < 0.5 else frac) + 'Z'))
        elif f['form'] == 'bad':
            a.append(('time', self.rnd.choice([stamp, stamp.replace('T', ' ') + 'Z', stamp[:10], 'noon', '', '2010-13-01T00:00:00Z', '2010-02-30T00:00:00Z', stamp + '+01:00'])))
        elif f['form'] == 'parts':
            a += [(p, ('%d' % v if self.rnd.random() < 0.7 else '%02d' % v) + (self.rnd.choice(['', '', '.0', '.5', '.99']) if p == 'second' else '')) for p, v in zip(PARTS, t)]
        elif f['form'] == 'none':
            drop = self.rnd.randrange(6)
            a += [(p, '1') for i, p in enumerate(PARTS) if i != drop]
        self.rnd.shuffle(a)
        s = '<earthquake ' + '\n '.join('%s="%s"' % kv for kv in a) + ' />'
        if self.rnd.random() < 0.3:
            s = '<shakemap-data><other x="1"/>' + s + '</shakemap-data>'
        if self.rnd.random() < 0.5:
            s = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n' + s
        with open(self.path, 'wb') as fh:
            fh.write(s.encode('utf-8'))

    def put_source(self, src):
        lines = []
        r = self.rnd
        for e in src:
            if r.random() < 0.3:
                lines.append(r.choice(['# mech=ALL', '', '   ', '#', '#lat = 5']))
            k, v = e['k'], e['v']
            n = {'loc': 'locstring', 'ref': 'reference', 'pc': 'productcode'}.get(k, k)
            if k in NUM:
                x = round(v * NUM[k], 7)
                w = r.choice([repr(x), '%d' % x if x == int(x) else repr(x), '%.9f' % x])
            else:
                w = self.word(v)
            lines.append(r.choice(['%s=%s', '%s = %s', '  %s=%s ', '%s\t=  %s\t']) % (n, w))
        self.more = r.random() < 0.3    # a parameter of the user's own
        if self.more:
            lines.append('Slip_Rate = 3.5')
        if r.random() < 0.3:
            lines.append('')
        text = '\n'.join(lines) + r.choice(['\n', ''])
        with open(self.src, 'w', encoding='utf-8') as fh:
            fh.write(text)

    def source(self, via):
        return self.src if via == 'path' else open(self.src, encoding='utf-8')

    def xml(self, via):
        if via == 'path':
            return self.path
        return self.rnd.choice([lambda: open(self.path, encoding='utf-8'), lambda: open(self.path, 'rb'),
                                lambda: io.BytesIO(open(self.path, 'rb').read())])()

    def entry(self, k, v):
        return ticks(v, NUM[k]) if k in NUM else self.token(v)

    def content(self, d):
        t = d.get('time')
        out = {k: ticks(d.get(k), NUM[k]) for k in ('lat', 'lon', 'depth', 'mag')}
        out['t'] = [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond] if isinstance(t, HistoricTime) else [0]
        for k, n in STR.items():
            if k != 'etype':
                out[k] = self.token(d[n]) if n in d else 'absent'
        return out

    def do(self, c):
        op = c['op']
        if op == 'write':
            return self.write(c)
        if op == 'hand':
            self.hand(c['f'])
            return {'ok': True, 'exc': '', 'v': 'none', 'kept': True}
        fh = []
        try:
            if op == 'read':
                v = self.content(read_event_file(self.opened(fh, self.xml(c['via']))))
            elif op == 'source':
                self.put_source(c['src'])
                d = read_source(self.opened(fh, self.source(c['via'])))
                if self.more and d.pop('Slip_Rate', None) != 3.5:
                    raise AssertionError('a parameter is missing')
                back = {'locstring': 'loc', 'reference': 'ref', 'productcode': 'pc'}
                v = {back.get(k, k): self.entry(back.get(k, k), x) for k, x in d.items()}
                v['n'] = len(d)
            else:
                kw = {}
                if c['src'] or self.rnd.random() < 0.3:
                    self.put_source(c['src'])
                    kw['sourcefile'] = self.opened(fh, self.source(c['via']))
                o = Origin.fromFile(self.opened(fh, self.xml(c['via'])), **kw)
                v = self.content({k: x for k, x in o.__dict__.items()})
                v['rake'] = ticks(o.rake, 0.01)
                del v['type']
        except Exception as x:
            return {'ok': False, 'exc': exc_kind(x), 'v': 'none', 'kept': True}
        finally:
            closed = [f.closed for f in fh]
            for f in fh:
                f.close()
        return {'ok': True, 'exc': '', 'v': v, 'kept': not any(closed)}

    def opened(self, fh, x):
        if not isinstance(x, str):
            fh.append(x)
        return x
