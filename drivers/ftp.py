import ftplib
import os

from drivers.ftpserver import Server

from impactutils.transfer.ftpsender import FTPSender
from drivers.delivery import Base


class Driver(Base):
    backend = 'ftp'

    def setup_remote(self):
        self.srv = Server()
        ftplib.FTP.port = self.srv.port
        self.rdir = '/pub/in coming/ev' if self.v % 2 else '/pub'
        self.srv.keep = (self.rdir,)
        if self.v % 5 == 0:
            self.srv.dirs |= {'/pub'} if self.v % 2 else set()

    def remote_exists(self):
        return self.rdir in self.srv.dirs

    def remote_files(self):
        with self.srv.lock:
            pre = self.rdir + '/'
            return {p[len(pre):]: b for p, b in self.srv.files.items() if p.startswith(pre)}

    def remote_put(self, rel, data):
        self.srv.put(self.rdir + '/' + rel, data)

    def remote_del(self, rel):
        self.srv.rm(self.rdir + '/' + rel)

    def stray(self):
        pre = self.rdir + '/'
        return len([p for p in self.srv.files if not p.startswith(pre)])

    def make(self):
        ldir, rdir = self.ldir, self.rdir
        how = self.v % 6
        if how in (1, 4):
            ldir = ldir + '/'
        if how in (3, 4):
            rdir = rdir + '/'
        if how in (2, 5):
            ldir = os.path.relpath(ldir)
        props = {'remote_directory': rdir, 'remote_host': '127.0.0.1'}
        if self.v % 4 == 1:
            self.srv.noanon = True
            self.srv.users['shake'] = 'se cret'
            props.update(user='shake', password='se cret')
        elif self.v % 4 == 2:
            props.update(user='', password='x@y')
        self.sender = FTPSender(properties=props,
                                local_files=self.local_files() if self.list else None,
                                local_directory=ldir if self.useTree else None,
                                cancelfile=self.marker)

    def cancel(self, k):
        return self.sender.cancel()

    def fault(self, c):
        self.srv.fault, self.srv.count, self.srv.fired = (c['k'], c['kind']), 0, False

    def unfault(self):
        self.srv.fault = None

    def close(self):
        self.srv.close()
