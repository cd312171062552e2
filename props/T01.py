"""CopySender delivery"""
from props import delivery_common as dc


def run(ctx):
    dc.run(ctx, 'copy', 'copy')
