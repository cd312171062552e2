"""the deprecated HDFContainer as a flat typed store"""
import random

from props.C01 import canary, consts, random_sessions

KINDS = ['dict', 'list', 'array', 'string', 'frame']


def run(ctx):
    rnd = random.Random('C04/%s' % ctx.seed)
    extra = random_sessions(rnd, 250 if ctx.quick else 6000, KINDS, True)
    tc = consts(KINDS, [])
    flat = lambda s: dict(s, flat=True)
    ctx.conform('Store', 'store', consts(KINDS, [(k, ['a']) for k in KINDS], '{1}'), extra_sessions=extra, canary=canary,
                trace_consts=tc, concretise=flat, variants=2)
    for k in KINDS:
        ctx.conform('Store', 'store', consts(KINDS, [(k, ['a']), (k, ['b'])]), canary=canary, trace_consts=tc, concretise=flat, variants=2, label=k)
