"""SecureSender delivery, against an SSH server"""
from props import delivery_common as dc

NAMES = dict(dc.NAMES, tree=[('a',), ('b',), ('d', 'a'), ('d', 'e', 'a'), ('d', 'e', 'd', 'a'), ('g', 'h'), ('f',)],
             ext=[('z',), ('y', 'z'), ('a',), ('b', 'w'), ('.cancel', 'w')], marks=[0, 1, 2, 3])


def run(ctx):
    dc.run(ctx, 'ssh', 'ssh', names=NAMES, nrand=40 if ctx.quick else 800,
           faults=[('exit', 12), ('drop', 12), ('cut', 12)], max_len=20)
