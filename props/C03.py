"""ShakeMapOutputContainer layers"""
import random

from props.shake_common import canary, consts, rand


def run(ctx):
    rnd = random.Random('C03/%s' % ctx.seed)
    tc = consts([], [], [], [])
    ctx.conform('ShakeStore', 'shakestore', consts([], ['C1', 'C2'], ['I1', 'I2'], [1]),
                extra_sessions=rand(rnd, 250 if ctx.quick else 6000, False, True) + rand(rnd, 50 if ctx.quick else 1000, True, True),
                canary=canary, trace_consts=tc, variants=2 if ctx.quick else 8)
    ctx.conform('ShakeStore', 'shakestore', consts(['config'], ['C1'], ['I1'], [1, 2]), canary=canary, trace_consts=tc, variants=2, label='values')
    if not ctx.quick:
        ctx.conform('ShakeStore', 'shakestore', consts(['info'], ['C1', 'C2'], ['I1', 'I2'], [1, 2]), canary=canary, trace_consts=tc, label='wide')
