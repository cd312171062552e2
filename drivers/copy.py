import os

from impactutils.transfer.copysender import CopySender
from drivers.delivery import LocalRemote


class Driver(LocalRemote):
    backend = 'copy'

    def make(self):
        ldir, rdir = self.ldir, self.rdir
        how = self.v % 6
        if how in (1, 4):
            ldir, rdir = ldir + '/', rdir + '/'
        if how in (2, 5):
            ldir = os.path.relpath(ldir)
        if how in (3, 5):
            rdir = os.path.relpath(rdir)
        self.sender = CopySender(properties={'remote_directory': rdir},
                                 local_files=self.local_files() if self.list else None,
                                 local_directory=ldir if self.useTree else None,
                                 cancelfile=self.marker)

    def cancel(self, k):
        if k == 0:
            return self.sender.cancel()
        return self.sender.cancel(cancel_content=self.cont.text(k))
