"""Drives a file sender through a Delivery session.  Subclassed per backend."""
import os

from drivers.util import NAMINGS, Rev, pool, walk_files, mkfile


class Base(object):
    backend = None

    def __init__(self, sess, scratch):
        self.scratch = scratch
        self.sess = sess
        init = sess['init']
        self.v = sess.get('variant', 0)
        self.naming = NAMINGS[self.v % len(NAMINGS)]
        self.back = {n: a for a, n in self.naming.items()}
        self.marker = '.cancel' if self.v % 3 != 2 else 'event CANCEL.txt' if self.backend != 'ftp' else 'event.CANCEL'
        self.back[self.marker] = '.cancel'
        self.naming = dict(self.naming)
        self.naming['.cancel'] = self.marker
        self.cont = Rev(pool(sess.get('seed', 0), big=sess.get('big', self.v % 4 == 3)))
        self.made = 0
        self.useTree = init['useTree']
        self.list = init['list']
        # the local directory: its own path may recur below itself
        self.ltop = os.path.join(scratch, 'loc')
        self.ldir = os.path.join(self.ltop, 'a', 'x') if self.v % 2 else os.path.join(self.ltop, 'event')
        if self.v % 6 in (2, 5):        # given as a relative path that recurs below itself
            self.ldir = os.path.join(scratch, self.naming.get('d', 'd'))
        self.fdir = os.path.join(scratch, 'flat')
        os.makedirs(self.ldir, exist_ok=True)
        os.makedirs(self.fdir)
        self.setup_remote()
        for e in init['tree']:
            self.put_local(self.ldir, e)
        for e in init['flat']:
            self.put_local(self.fdir, e)
        for e in init['remote']:
            self.remote_put('/'.join(self.cn(e['p'])), self.cont.bytes(e['c']))
        self.known_litter = set()
        self.seen_paths = {tuple(e['p']) for e in init['remote']} | {('.cancel',)}
        self.sender = None
        self.make()

    # names
    def cn(self, p):
        return [self.naming.get(x, x) for x in p]

    def an(self, rel):
        return [self.back.get(x, x) for x in rel.split('/')]

    def put_local(self, base, e):
        # every third file is a symbolic link to one elsewhere; times of any age
        self.made += 1
        h = self.made + self.v
        mkfile(os.path.join(base, *self.cn(e['p'])), self.cont.bytes(e['c']),
               link=os.path.join(self.scratch, 'store', 'f%d.dat' % self.made) if h % 3 == 0 else None,
               when=(None, 1000000000, 2000000000)[h % 4] if h % 4 < 3 else None)

    def local(self, base):
        return sorted(({'p': self.an(rel), 'c': self.cont.id(b)} for rel, b in walk_files(base).items()),
                      key=lambda e: e['p'])

    def local_files(self):
        return [os.path.join(self.fdir, *self.cn([n])) for n in self.list]

    def state(self):
        rem = []
        for rel, b in self.remote_files().items():
            p = self.an(rel)
            if tuple(p) in self.seen_paths:
                rem.append({'p': p, 'c': self.cont.id(b)})
        return {'useTree': self.useTree, 'list': self.list, 'tree': self.local(self.ldir) if self.useTree else [],
                'flat': self.local(self.fdir), 'remote': sorted(rem, key=lambda e: e['p']), 'rdir': self.remote_exists()}

    def litter(self):
        now = {rel for rel in self.remote_files() if tuple(self.an(rel)) not in self.seen_paths}
        new = now - self.known_litter
        self.known_litter |= now
        return len(new) + self.stray()

    def stray(self):
        """files outside the remote directory that should not be there"""
        return 0

    def sources(self):
        out = {(n,) for n in self.list}
        if self.useTree:
            out |= {tuple(e['p']) for e in self.local(self.ldir)}
        return out

    def do(self, c):
        op = c['op']
        res = {'ok': True, 'n': 0, 'litter': 0}
        if op in ('send', 'sendf'):
            self.seen_paths |= self.sources()
            if op == 'sendf':
                self.fault(c)
            try:
                n, msg = self.sender.send()
                res['n'] = int(n) if not isinstance(n, bool) else -7
                if not isinstance(msg, str):
                    res['n'] = -8
            except Exception as e:
                res = {'ok': False, 'n': 0, 'litter': 0, 'exc': type(e).__name__, 'msg': str(e)[:200]}
            finally:
                if op == 'sendf':
                    self.unfault()
            res['litter'] = self.litter()
        elif op == 'cancel':
            try:
                msg = self.cancel(c['c'])
                if not isinstance(msg, str):
                    res['n'] = -8
            except Exception as e:
                res = {'ok': False, 'n': 0, 'litter': 0, 'exc': type(e).__name__, 'msg': str(e)[:200]}
            res['litter'] = self.litter()
        elif op == 'tree':
            self.put_local(self.ldir, c)
        elif op == 'flat':
            self.put_local(self.fdir, c)
        elif op == 'untree':
            self.unlink(self.ldir, c['p'])
        elif op == 'unflat':
            self.unlink(self.fdir, c['p'])
        elif op == 'ext':
            self.seen_paths.add(tuple(c['p']))
            self.remote_put('/'.join(self.cn(c['p'])), self.cont.bytes(c['c']))
        elif op == 'unext':
            self.remote_del('/'.join(self.cn(c['p'])))
        else:
            raise ValueError(op)
        return res

    def unlink(self, base, p):
        q = os.path.join(base, *self.cn(p))
        os.remove(q)
        q = os.path.dirname(q)
        while q != base and not os.listdir(q):
            os.rmdir(q)
            q = os.path.dirname(q)


class LocalRemote(Base):
    """the remote side is a directory of this machine (copy, ssh)"""

    def setup_remote(self):
        self.rtop = os.path.join(self.scratch, 'rem')
        os.makedirs(self.rtop)
        self.rdir = os.path.join(self.rtop, 'data', 'a') if self.v % 2 else os.path.join(self.rtop, 'event')

    def remote_exists(self):
        return os.path.isdir(self.rdir)

    def remote_files(self):
        return walk_files(self.rdir, plain=True) if os.path.isdir(self.rdir) else {}

    def remote_put(self, rel, data):
        mkfile(os.path.join(self.rdir, rel), data, when=(None, 1000000000, 2000000000)[len(rel) % 3])

    def remote_del(self, rel):
        q = os.path.join(self.rdir, rel)
        os.remove(q)
        q = os.path.dirname(q)
        while q != self.rdir and not os.listdir(q):
            os.rmdir(q)
            q = os.path.dirname(q)

    def stray(self):
        n = 0
        for r, ds, fs in os.walk(self.rtop):
            for f in fs:
                if not os.path.join(r, f).startswith(self.rdir + os.sep):
                    n += 1
        return n
