import os
import random
import shutil

from drivers.common import exc_kind
from impactutils.transfer import factory
from impactutils.transfer.copysender import CopySender
from impactutils.transfer.emailsender import EmailSender
from impactutils.transfer.ftpsender import FTPSender
from impactutils.transfer.pdlsender import PDLSender
from impactutils.transfer.securesender import SecureSender

CLASSES = {'copy': CopySender, 'ftp': FTPSender, 'ssh': SecureSender, 'email': EmailSender, 'pdl': PDLSender}
REQUIRED = {'copy': ['remote_directory'], 'ftp': ['remote_directory', 'remote_host'], 'ssh': ['private_key', 'remote_host', 'remote_directory'],
            'email': ['smtp_servers', 'sender', 'subject', 'recipients', 'message'],
            'pdl': ['java', 'jarfile', 'privatekey', 'configfile', 'source', 'type', 'code', 'eventsource', 'eventsourcecode']}
OPTIONAL = {'copy': [], 'ftp': ['user', 'password'], 'ssh': [], 'email': ['zip_file', 'max_bcc'], 'pdl': ['latitude', 'longitude', 'depth', 'magnitude', 'eventtime']}
TREE = {'d1': ['x.txt', 'sub/y.txt'], 'd2': ['z.txt', 'x2'], 'd3': []}


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        self.w = scratch
        for f in ('f1', 'f2', 'f3'):
            self.write('files/' + f)
        os.makedirs(self.path('files/folder'))
        for d in TREE:
            os.makedirs(self.path('dirs/' + d))
            for f in TREE[d]:
                self.write('dirs/%s/%s' % (d, f))
        self.write('dirs/f1')
        self.lists = {}
        self.names = {}
        for n, fs in (sess.get('init') or {'lists': {'A': ['f1'], 'B': ['f2', 'f3', 'f2'], 'M': ['f1', 'gone'], 'F': ['folder'], 'E': []}})['lists'].items():
            self.lists[n] = [self.path('files/' + f) for f in fs]
        self.props = {r: {'remote_directory': self.path('to/' + r)} for r in ('r1', 'r2', 'r3')}
        self.senders = {}
        self.slots = ['1', '2']

    def path(self, p):
        return os.path.join(self.w, p)

    def write(self, p):
        os.makedirs(os.path.dirname(self.path(p)), exist_ok=True)
        with open(self.path(p), 'w') as f:
            f.write(p)

    def found(self):
        """what is in the remote directories; and empty them"""
        out = {}
        for root, _, fs in os.walk(self.path('to')):
            for f in fs:
                rel = os.path.relpath(os.path.join(root, f), self.path('to')).split('/', 1)
                out.setdefault(rel[0], []).append(rel[1])
        shutil.rmtree(self.path('to'), ignore_errors=True)
        return out

    def look(self, k):
        if k not in self.senders:
            return {'there': False, 'files': [], 'n': 0, 'dir': '', 'to': '', 'mark': ''}
        s = self.senders[k]
        self.found()
        n, msg = s.send()
        got = self.found()
        assert len(got) <= 1, got
        to, files = list(got.items())[0] if got else ('', [])
        for r in ('r1', 'r2', 'r3'):
            os.makedirs(self.path('to/' + r))
        s.cancel()
        mark = self.found()
        assert len(mark) == 1 and (not to or to in mark), mark
        to, (marker,) = list(mark.items())[0]
        d = [x for x in TREE if TREE[x] and set(TREE[x]) <= set(files)]
        assert len(d) <= 1
        d = d[0] if d else ''
        inside = TREE[d] if d else []
        if not d and self.empty.get(k):
            d = 'd3'                     # an empty directory leaves no trace
        return {'there': True, 'files': sorted(set(files) - set(inside)), 'n': n - len(inside), 'dir': d, 'to': to, 'mark': marker}

    empty = {}

    def state(self):
        short = lambda f: os.path.relpath(f, self.path('files'))
        for r, p in self.props.items():
            assert p == {'remote_directory': self.path('to/' + r)}, p
        return {'lists': {n: [short(f) for f in fs] for n, fs in self.lists.items()}, 'senders': {k: self.look(k) for k in self.slots}}

    def do(self, c):
        try:
            return {'ok': True, 'exc': '', 'says': getattr(self, 'do_' + c['op'])(c) or ''}
        except Exception as e:
            return {'ok': False, 'exc': exc_kind(e), 'says': ''}

    def do_new(self, c):
        kw = {}
        if c['list']:
            kw['local_files'] = {'list': lambda x: x, 'tuple': tuple, 'text': lambda x: x[0] if x else ''}[c['form']](self.lists[c['list']])
        elif self.rnd.random() < 0.3:
            kw['local_files'] = None
        if c['dir']:
            kw['local_directory'] = self.path('dirs/' + c['dir'])
        if c['mark'] != '.cancel' or self.rnd.random() < 0.3:
            kw['cancelfile'] = c['mark']
        if c['to']:
            kw['properties'] = self.props[c['to']]
        elif self.rnd.random() < 0.5:
            kw['properties'] = self.rnd.choice([{}, None, {'remote_host': 'x'}])
        s = factory.get_sender_class('copy')(**kw)
        self.senders[c['k']] = s

    def do_add(self, c):
        self.senders[c['k']].addFiles(self.lists[c['list']])

    def do_chdir(self, c):
        self.senders[c['k']].changeDirectory(self.path('dirs/' + c['dir']))

    def do_prop(self, c):
        self.senders[c['k']].addProperty('remote_directory', self.path('to/' + c['to']))

    def do_poke(self, c):
        self.lists[c['list']].append(self.path('files/' + c['f']))

    def do_empty(self, c):
        del self.lists[c['list']][:]

    def do_class(self, c):
        k = factory.get_sender_class(c['kind'])
        return [n for n, x in CLASSES.items() if x is k][0]

    def do_make(self, c):
        r, k = self.rnd, c['kind']
        req = list(REQUIRED[k])
        r.shuffle(req)
        p = {n: 'a value' for n in req if n != c['without'] and c['without'] != 'everything'}
        for n in OPTIONAL[k]:
            if r.random() < 0.5:
                p[n] = 1
        was = dict(p)
        kw = {'properties': p}
        if c['without'] == 'everything' and r.random() < 0.5:
            kw = r.choice([{}, {'properties': None}])
        s = CLASSES[k](**kw)
        assert p == was and sorted(s.getRequiredProperties()) == sorted(REQUIRED[k]) and set(OPTIONAL[k]) <= set(s.getOptionalProperties())
        return k
