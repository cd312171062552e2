"""FTPSender delivery, against an FTP server"""
from props import delivery_common as dc

NAMES = dict(dc.NAMES, marks=[0])


def run(ctx):
    dc.run(ctx, 'ftp', 'ftp', names=NAMES, faults=[('perm', 45), ('temp', 45), ('drop', 45), ('data', 45)])
