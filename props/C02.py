"""ShakeMap container metadata slots"""
import random

from props.shake_common import canary, consts, rand


def run(ctx):
    rnd = random.Random('C02/%s' % ctx.seed)
    tc = consts([], [], [], [])
    ctx.conform('ShakeStore', 'shakestore', consts(['config', 'rupture', 'stations', 'history', 'info'], [], [], [1]),
                extra_sessions=rand(rnd, 250 if ctx.quick else 6000, True, False), canary=canary, trace_consts=tc, variants=2)
    for pair in (['rupture', 'config'], ['stations', 'info'], ['history', 'rupture']):
        ctx.conform('ShakeStore', 'shakestore', consts(pair, [], [], [1, 2]), canary=canary, trace_consts=tc, variants=2, label='/'.join(pair))
