"""Observes the remote side at every step of a send (Publish sessions).

session: {'backend','old': {rel: content}, 'src': {rel: content},
          'tree': [rels in tree], 'mode': 'look'|'die'|'full', ...}
"""
import os
import resource
import sys

from drivers.util import Rev, pool, walk_files, mkfile


class PubBase(object):
    clears = False

    def __init__(self, sess, scratch):
        self.sess, self.scratch = sess, scratch
        self.cont = Rev(pool(sess['seed'], big=True))
        self.old, self.src = dict(sess['old']), dict(sess['src'])
        self.ldir, self.fdir = os.path.join(scratch, 'tree'), os.path.join(scratch, 'flat')
        os.makedirs(self.ldir)
        os.makedirs(self.fdir)
        self.flat = []
        for rel, k in self.src.items():
            if rel in sess['tree']:
                mkfile(os.path.join(self.ldir, rel), self.cont.bytes(k))
            else:
                p = os.path.join(self.fdir, rel)
                mkfile(p, self.cont.bytes(k))
                self.flat.append(p)
        self.setup()
        for rel, k in self.old.items():
            self.remote_put(rel, self.cont.bytes(k))
        self.names = set(self.old) | set(self.src) | {'.cancel'}
        self.all = None
        self.sender = self.make()

    def vis(self):
        out = []
        for rel, b in self.remote_files().items():
            if rel in self.names:
                out.append({'p': rel, 'c': self.cont.id(b)})
        return sorted(out, key=lambda e: e['p'])

    def state(self):
        v = self.vis()
        src = [{'p': p, 'c': c} for p, c in sorted(self.src.items())]
        if self.all is None:
            self.all = v + [e for e in src if e not in v]
        return {'vis': v, 'src': src, 'clears': self.clears, 'all': self.all}

    def do(self, c):
        raise NotImplementedError

    def snap(self, steps):
        s = self.state()
        if not steps or steps[-1][2] != s:
            steps.append(({'op': 'look'}, 0, s))

    def retry(self, steps):
        """a new sender, later: everything must arrive in the end"""
        try:
            self.make().send()
            steps.append(({'op': 'retry'}, 0, self.state()))
        except Exception as e:
            steps.append(({'op': 'retry'}, 'raised %s: %s' % (type(e).__name__, e), {
                'vis': [], 'src': [], 'clears': self.clears, 'all': []}))


class CopyPub(PubBase):
    clears = True

    def setup(self):
        from impactutils.transfer.copysender import CopySender
        self.cls = CopySender
        self.rdir = os.path.join(self.scratch, 'remote')
        os.makedirs(self.rdir)

    def remote_files(self):
        # reads with the profiler off
        return walk_files(self.rdir)

    def remote_put(self, rel, data):
        mkfile(os.path.join(self.rdir, rel), data)

    def make(self):
        return self.cls(properties={'remote_directory': self.rdir}, local_files=self.flat or None,
                        local_directory=self.ldir if self.sess['tree'] else None)

    def profiled(self, hook):
        """run send with hook() called at every function call and return, Python or C"""
        def prof(frame, event, arg):
            sys.setprofile(None)
            try:
                hook()
            finally:
                sys.setprofile(prof)
        sys.setprofile(prof)
        try:
            self.sender.send()
        finally:
            sys.setprofile(None)

    def trace(self):
        mode = self.sess['mode']
        steps = []
        if mode == 'full':
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.sess['limit'], resource.RLIM_INFINITY))
            try:
                self.profiled(lambda: self.snap(steps))
                end = 'ok'
            except OSError:
                end = 'fail'
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            steps.append(({'op': end}, 0, self.state()))
        elif mode == 'look':
            self.profiled(lambda: self.snap(steps))
            steps.append(({'op': 'ok'}, 0, self.state()))
        else:
            # die at the k-th distinct state of the whole remote directory, temporary files included
            k = self.sess['k']
            pid = os.fork()
            if pid == 0:
                try:
                    seen = [None, 0]

                    def hook():
                        full = {r: len(b) for r, b in walk_files(self.rdir).items()}
                        if full != seen[0]:
                            seen[0] = full
                            if seen[1] == k:
                                os._exit(0)
                            seen[1] += 1
                    self.profiled(hook)
                    os._exit(0)
                except BaseException:
                    os._exit(1)
            _, status = os.waitpid(pid, 0)
            if status != 0:
                steps.append(({'op': 'ok'}, 'send raised', {'vis': [], 'src': [], 'clears': True, 'all': []}))
            steps.append(({'op': 'die'}, 0, self.state()))
        self.retry(steps)
        return steps


class FtpPub(PubBase):
    def setup(self):
        import ftplib
        from drivers.ftpserver import Server
        from impactutils.transfer.ftpsender import FTPSender
        self.cls = FTPSender
        self.srv = Server()
        ftplib.FTP.port = self.srv.port
        self.rdir = '/in/ev'
        self.srv.dirs |= {'/in', '/in/ev'}

    def remote_files(self):
        with self.srv.lock:
            return {p[len(self.rdir) + 1:]: b for p, b in self.srv.files.items()}

    def remote_put(self, rel, data):
        self.srv.put(self.rdir + '/' + rel, data)

    def make(self):
        return self.cls(properties={'remote_directory': self.rdir, 'remote_host': '127.0.0.1'},
                        local_files=self.flat or None, local_directory=self.ldir if self.sess['tree'] else None)

    def trace(self):
        steps = []
        self.srv.look = lambda: self.snap(steps)
        if self.sess['mode'] == 'look':
            self.sender.send()
            steps.append(({'op': 'ok'}, 0, self.state()))
        else:
            self.srv.fault, self.srv.count = (self.sess['k'], self.sess['kind']), 0
            try:
                self.sender.send()
                end = 'ok'
            except Exception:
                end = 'fail'
            self.srv.fault = None
            steps.append(({'op': end}, 0, self.state()))
        self.srv.look = None
        self.retry(steps)
        return steps

    def close(self):
        self.srv.close()


class SshPub(PubBase):
    def setup(self):
        import getpass
        import logging
        import threading
        from drivers import sshserver
        from impactutils.transfer.securesender import SecureSender
        logging.getLogger('paramiko').setLevel(logging.CRITICAL + 1)
        self.cls = SecureSender
        self.lock = threading.Lock()
        self.srv = sshserver.Server(self.scratch)
        sshserver.redirect(self.srv.port)
        self.key, b64 = sshserver.client_files(os.environ['HOME'], self.srv.port)
        self.srv.keys.add(b64)
        self.srv.users.add(getpass.getuser())
        self.rdir = os.path.join(self.scratch, 'remote')
        os.makedirs(self.rdir)

    def remote_files(self):
        out = {}
        for rel in self.names:
            try:
                with open(os.path.join(self.rdir, rel), 'rb') as h:
                    out[rel] = h.read()
            except OSError:
                pass
        return out

    def remote_put(self, rel, data):
        mkfile(os.path.join(self.rdir, rel), data)

    def make(self):
        return self.cls(properties={'remote_directory': self.rdir, 'remote_host': '127.0.0.1',
                                    'private_key': self.key},
                        local_files=self.flat or None, local_directory=self.ldir if self.sess['tree'] else None)

    def trace(self):
        steps = []

        def look():
            with self.lock:
                self.snap(steps)
        self.srv.look = look
        if self.sess['mode'] != 'look':
            self.srv.fault, self.srv.count = (self.sess['k'], self.sess['kind']), 0
        try:
            self.sender.send()
            end = 'ok'
        except Exception:
            if self.sess['mode'] == 'look':
                raise               # nothing was wrong with the transport
            end = 'fail'
            self.srv.drop()
        self.srv.quiet()
        self.srv.look = None
        self.srv.fault = None
        steps.append(({'op': end}, 0, self.state()))
        self.retry(steps)
        return steps

    def close(self):
        self.srv.close()


def Driver(sess, scratch):
    return {'copy': CopyPub, 'ftp': FtpPub, 'ssh': SshPub}[sess['backend']](sess, scratch)
