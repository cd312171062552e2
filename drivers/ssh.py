import getpass
import logging
import os

from drivers import sshserver

from impactutils.transfer.securesender import SecureSender
from drivers.delivery import LocalRemote

logging.getLogger('paramiko').setLevel(logging.CRITICAL + 1)


class Driver(LocalRemote):
    backend = 'ssh'

    def setup_remote(self):
        super().setup_remote()
        self.srv = sshserver.Server(self.scratch)
        sshserver.redirect(self.srv.port)
        self.key, b64 = sshserver.client_files(os.environ['HOME'], self.srv.port)
        self.srv.keys.add(b64)

    def make(self):
        ldir, rdir = self.ldir, self.rdir
        how = self.v % 6
        if how in (1, 4):
            ldir = ldir + '/'
        if how in (3, 4):
            rdir = rdir + '/'
        if how in (2, 5):
            ldir = os.path.relpath(ldir)
        props = {'remote_directory': rdir, 'remote_host': '127.0.0.1', 'private_key': self.key}
        if self.v % 3 == 1:
            props['remote_user'] = 'shake'
            self.srv.users.add('shake')
        else:
            self.srv.users.add(getpass.getuser())
        self.sender = SecureSender(properties=props,
                                   local_files=self.local_files() if self.list else None,
                                   local_directory=ldir if self.useTree else None,
                                   cancelfile=self.marker)

    def remote_files(self):
        out = super().remote_files()
        for rel in out:
            # the marker is a line of text
            if rel == self.marker and out[rel].endswith(b'\n') and self.cont.id(out[rel]) == -1:
                out[rel] = out[rel][:-1]
        return out

    def do(self, c):
        r = super().do(c)
        if not r['ok']:
            self.srv.drop()     # what a failed send leaves behind: the connection
        self.srv.quiet()
        if not r['ok']:
            self.litter()
        return r

    def cancel(self, k):
        if k == 0:
            return self.sender.cancel()
        return self.sender.cancel(cancel_content=self.cont.text(k))

    def fault(self, c):
        self.srv.fault, self.srv.count = (c['k'], c['kind']), 0

    def unfault(self):
        self.srv.fault = None

    def close(self):
        self.srv.close()
